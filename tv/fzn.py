"""FlatZinc semantics: turns a FlatZinc program into a condition over symbols.

Introduced variables that some constraint determines uniquely are substituted by
their defining term (the constraint then only contributes the side conditions of
the definition and the variable's declared domain); what remains are residual
introduced variables."""
import z3
from fractions import Fraction
from . import smt as S
from .smt import And, Or, Not, Implies, Iff, Xor, SI, Unsupported, is_int, is_bool, is_float
from .interp import (Arr, Set, Rng, FRng, Opt, num, eq, leq, less, member, subset, setop, toset, card, ite, setle, mkset, isset)


class UnknownConstraint(Unsupported):
    pass


def lin(c, x, isf=False):
    r = 0
    for a, b in zip(c.e, x.e):
        b = num(b)
        if is_float(a) or is_float(b):
            t = S.rop('*', a, b)
        else:
            t = S.mul(a, b)
        r = S.rop('+', r, t) if is_float(r) or is_float(t) else S.add(r, t)
    return r


def elem(i, a, c):
    i = num(i)
    return Or([And(S.ceq(i, k + 1), eq(v, c)) for k, v in enumerate(a.e)])


def select(i, a):
    """(value, in-range condition)"""
    i = num(i)
    n = len(a.e)
    r = None
    for k in reversed(range(n)):
        c = S.ceq(i, k + 1)
        if c is False:
            continue
        r = a.e[k] if r is None else ite(c, a.e[k], r)
    if r is None:
        r = a.e[0] if a.e else 0
    return r, And(S.le(1, i), S.le(i, n))


def powc(a, b):
    from .interp import Interp
    I = Interp([])
    r = I.pow(num(a), num(b))
    return r, And(I.ctx.defs)


def fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def rmin(a, b):
    return S.rite(S.rle(a, b), a, b)


def rmax(a, b):
    return S.rite(S.rle(a, b), b, a)


# base predicates ---------------------------------------------------------------
P = {
    'int_eq': lambda a, b: eq(num(a), num(b)), 'int_ne': lambda a, b: Not(eq(num(a), num(b))),
    'int_le': lambda a, b: S.le(num(a), num(b)), 'int_lt': lambda a, b: S.lt(num(a), num(b)),
    'int_ge': lambda a, b: S.le(num(b), num(a)), 'int_gt': lambda a, b: S.lt(num(b), num(a)),
    'int_lin_eq': lambda c, x, k: S.ceq(lin(c, x), k), 'int_lin_ne': lambda c, x, k: Not(S.ceq(lin(c, x), k)),
    'int_lin_le': lambda c, x, k: S.le(lin(c, x), k), 'int_lin_lt': lambda c, x, k: S.lt(lin(c, x), k),
    'bool_lin_eq': lambda c, x, k: S.ceq(lin(c, x), num(k)), 'bool_lin_le': lambda c, x, k: S.le(lin(c, x), num(k)),
    'bool_eq': lambda a, b: Iff(a, b), 'bool_ne': lambda a, b: Xor(a, b), 'bool_le': lambda a, b: Implies(a, b),
    'bool_lt': lambda a, b: And(Not(a), b), 'bool_ge': lambda a, b: Implies(b, a), 'bool_gt': lambda a, b: And(a, Not(b)),
    'bool_clause': lambda p, n: Or(list(p.e) + [Not(v) for v in n.e]),
    'array_bool_xor': lambda a: fold(Xor, [False] + list(a.e)),
    'set_in': lambda x, s: member(x, s), 'set_eq': lambda a, b: eq(a, b), 'set_ne': lambda a, b: Not(eq(a, b)),
    'set_subset': lambda a, b: subset(a, b), 'set_superset': lambda a, b: subset(b, a),
    'set_le': lambda a, b: setle(toset(a), toset(b)),
    'set_lt': lambda a, b: And(setle(toset(a), toset(b)), Not(eq(a, b))),
    'set_ge': lambda a, b: setle(toset(b), toset(a)),
    'set_gt': lambda a, b: And(setle(toset(b), toset(a)), Not(eq(a, b))),
    'float_eq': lambda a, b: S.req(a, b), 'float_ne': lambda a, b: Not(S.req(a, b)), 'float_le': lambda a, b: S.rle(a, b),
    'float_lt': lambda a, b: Not(S.rle(b, a)),
    'float_lin_eq': lambda c, x, k: S.req(lin(c, x), k), 'float_lin_ne': lambda c, x, k: Not(S.req(lin(c, x), k)),
    'float_lin_le': lambda c, x, k: S.rle(lin(c, x), k), 'float_lin_lt': lambda c, x, k: Not(S.rle(k, lin(c, x))),
    'float_in': lambda a, l, h: And(S.rle(l, a), S.rle(a, h)),
    'float_set_in': lambda a, s: member(a, s), 'float_dom': None,
    # indicator constraints of the linear library
    'aux_int_le_zero_if_0__IND': lambda x, b: Implies(S.ceq(num(b), 0), S.le(num(x), 0)),
    'aux_float_le_zero_if_0__IND': lambda x, b: Implies(S.ceq(num(b), 0), S.rle(x, Fraction(0))),
    'aux_float_eq_if_1__IND': lambda x, y, b: Implies(S.ceq(num(b), 1), S.req(x, y)),
    'int_lin_le_reif__IND': lambda c, x, k, b: Iff(P['int_lin_le'](c, x, k), S.ceq(num(b), 1)),
    'int_lin_eq_reif__IND': lambda c, x, k, b: Iff(P['int_lin_eq'](c, x, k), S.ceq(num(b), 1)),
}
del P['float_dom']

# functional predicates: name -> (index of result, f(args) -> (value, side condition))
FN = {
    'int_plus': (2, lambda a, b: (S.add(num(a), num(b)), True)),
    'int_minus': (2, lambda a, b: (S.sub(num(a), num(b)), True)),
    'int_times': (2, lambda a, b: (S.mul(num(a), num(b)), True)),
    'fzn_int_times': (2, lambda a, b: (S.mul(num(a), num(b)), True)),
    'int_div': (2, lambda a, b: (S.tdiv(num(a), num(b)), Not(S.ceq(num(b), 0)))),
    'int_mod': (2, lambda a, b: (S.tmod(num(a), num(b)), Not(S.ceq(num(b), 0)))),
    'int_pow': (2, powc), 'int_pow_fixed': (2, powc),
    'int_abs': (1, lambda a: (S.iabs(num(a)), True)),
    'int_negate': (1, lambda a: (S.neg(num(a)), True)),
    'int_min': (2, lambda a, b: (S.imin(num(a), num(b)), True)), 'int_max': (2, lambda a, b: (S.imax(num(a), num(b)), True)),
    'array_int_minimum': (0, lambda a: (fold(S.imin, [num(v) for v in a.e]), True)),
    'array_int_maximum': (0, lambda a: (fold(S.imax, [num(v) for v in a.e]), True)),
    'array_int_element': (2, select), 'array_var_int_element': (2, select), 'array_bool_element': (2, select),
    'array_var_bool_element': (2, select), 'array_set_element': (2, select), 'array_var_set_element': (2, select),
    'array_float_element': (2, select), 'array_var_float_element': (2, select),
    'array_bool_and': (1, lambda a: (And(list(a.e)), True)), 'array_bool_or': (1, lambda a: (Or(list(a.e)), True)),
    'bool_and': (2, lambda a, b: (And(a, b), True)), 'bool_or': (2, lambda a, b: (Or(a, b), True)),
    'bool_xor': (2, lambda a, b: (Xor(a, b), True)), 'bool_not': (1, lambda a: (Not(a), True)),
    'bool2int': (1, lambda a: (num(a), True)),
    'set_card': (1, lambda s: (card(s), True)),
    'set_union': (2, lambda a, b: (setop('union', a, b), True)), 'set_intersect': (2, lambda a, b: (setop('intersect', a, b), True)),
    'set_diff': (2, lambda a, b: (setop('diff', a, b), True)), 'set_symdiff': (2, lambda a, b: (setop('symdiff', a, b), True)),
    'int2float': (1, lambda a: (S.rv(num(a)), True)),
    'float_plus': (2, lambda a, b: (S.rop('+', a, b), True)), 'float_minus': (2, lambda a, b: (S.rop('-', a, b), True)),
    'float_times': (2, lambda a, b: (S.rop('*', a, b), True)),
    'float_div': (2, lambda a, b: (S.rop('/', a, b), Not(S.req(b, Fraction(0))))),
    'float_abs': (1, lambda a: (S.rite(S.rle(Fraction(0), a), a, S.rop('-', Fraction(0), a)), True)),
    'float_min': (2, lambda a, b: (rmin(a, b), True)), 'float_max': (2, lambda a, b: (rmax(a, b), True)),
    'array_float_minimum': (0, lambda a: (fold(rmin, [S.rv(num(v)) for v in a.e]), True)),
    'array_float_maximum': (0, lambda a: (fold(rmax, [S.rv(num(v)) for v in a.e]), True)),
}


def base(name, args):
    """condition of an unreified constraint"""
    if name == 'bool_xor' and len(args) == 2:
        return Xor(*args)
    if name == 'bool_not' and len(args) == 2:
        return Xor(*args)
    if name in FN:
        i, f = FN[name]
        r = args[i]
        rest = args[:i] + args[i + 1:]
        v, side = f(*rest)
        return And(side, eq(r, v))
    if name in P:
        return P[name](*args)
    from . import fznglobals
    if name in fznglobals.G:
        return fznglobals.G[name](*args)
    raise UnknownConstraint("FlatZinc constraint " + name)


def cond(name, args):
    if name.endswith('_reif'):
        return Iff(base(name[:-5], args[:-1]), args[-1])
    if name in ('array_bool_and_imp', 'array_bool_or_imp'):
        e = args[0].e
        return Implies(args[1], And(list(e)) if name == 'array_bool_and_imp' else Or(list(e)))
    if name.endswith('_imp'):
        return Implies(args[-1], base(name[:-4], args[:-1]))
    return base(name, args)


def widen(v):
    """the same term without the assumption that it lies in the model's domain"""
    if isinstance(v, SI):
        if S.MODE[0] == 'int':
            return SI(v.lo - 10, v.hi + 10, v.e)
        w = v.e.size()
        return SI(-(1 << (w - 1)), (1 << (w - 1)) - 1, v.e)
    return v


class Flat:
    def __init__(self, items):
        self.vars = {}      # name -> ti
        self.alias = {}     # name -> rhs ast
        self.rbound = {}
        self.arrays = {}    # name -> (ti, rhs ast)
        self.cons = []      # (name, [ast])
        self.solve = ('satisfy', None)
        for it in items:
            if it[0] == 'decl':
                _, ti, n, rhs = it
                if ti[5] is not None:
                    self.arrays[n] = (ti, rhs)
                elif ti[1]:
                    self.vars[n] = ti
                    if rhs is not None:
                        self.alias[n] = rhs
                else:
                    self.arrays[n] = (ti, rhs)   # scalar parameter
            elif it[0] == 'constraint':
                c = it[1]
                if c[0] == 'call':
                    self.cons.append((c[1], c[2]))
                elif c[0] == 'id':
                    self.cons.append(('bool_eq', [c, ('bool', True)]))
                elif c[0] == 'bool':
                    self.cons.append(('bool_eq', [c, ('bool', True)]))
                else:
                    raise Unsupported("flat constraint %r" % (c,))
            elif it[0] == 'solve':
                self.solve = (it[1], it[2])
        self.val = {}
        self.parcache = {}
        self.conds = []
        self.residual = {}   # name -> symbol (or list of symbols)
        self.resdom = []

    # ---- evaluation of arguments
    def ev(self, e):
        t = e[0]
        if t in ('int', 'bool', 'float'):
            return e[1]
        if t == 'str':
            return e[1]
        if t == 'un' and e[1] == '-':
            v = self.ev(e[2])
            return -v if isinstance(v, Fraction) else S.neg(v)
        if t == 'id':
            n = e[1]
            if n in self.val:
                return self.val[n]
            if n in self.arrays:
                if n not in self.parcache:
                    self.parcache[n] = self.ev(self.arrays[n][1])
                return self.parcache[n]
            raise KeyError(n)
        if t == 'arr':
            return Arr([(1, len(e[1]))], [self.ev(x) for x in e[1]])
        if t == 'set':
            vs = [self.ev(x) for x in e[1]]
            if any(isinstance(v, Fraction) for v in vs):
                return FRng([(v, v) for v in vs])
            return mkset(vs)
        if t == 'bin' and e[1] == '..':
            a, b = self.ev(e[2]), self.ev(e[3])
            if isinstance(a, Fraction) or isinstance(b, Fraction):
                return FRng([(S.rv(a), S.rv(b))])
            return Rng(a, b)
        if t == 'bin' and e[1] == 'union':
            a, b = self.ev(e[2]), self.ev(e[3])
            if isinstance(a, FRng):
                return FRng(a.rs + b.rs)
            return setop('union', a, b)
        if t == 'paren':
            return self.ev(e[1])
        if t == 'inf':
            return None
        raise Unsupported("flat expression %r" % (e,))

    def refs(self, e, out):
        t = e[0]
        if t == 'id':
            n = e[1]
            if n in self.vars:
                out.add(n)
            elif n in self.arrays and n not in self.parcache:
                r = self.arrays[n][1]
                key = ('refs', n)
                if key not in self.parcache:
                    s = set()
                    self.refs(r, s)
                    self.parcache[key] = s
                out |= self.parcache[key]
        elif t == 'arr' or t == 'set':
            for x in e[1]:
                self.refs(x, out)
        elif t in ('paren',):
            self.refs(e[1], out)
        elif t == 'un':
            self.refs(e[2], out)

    def domain(self, n):
        """condition that the value of n lies in its declared domain"""
        ti = self.vars[n]
        v = self.val[n]
        b = ti[4]
        if b[0] == 'dom':
            d = self.ev(b[1])
            if ti[3]:
                return subset(v, d)
            if is_bool(v):
                v = num(v)
            return member(v, d)
        return True

    def nonneg(self, n):
        b = self.vars[n][4]
        if b[0] != 'dom':
            return False
        d = b[1]
        while d[0] == 'paren':
            d = d[1]
        return d[0] == 'bin' and d[1] == '..' and d[2][0] == 'int' and d[2][1] >= 0

    def onehot(self):
        """groups of introduced 0/1 variables of which exactly one (or, if some terms of the
        equation are expressed through others, at most one) is 1"""
        out, used = [], set()
        for name, args in self.cons:
            if name != 'int_lin_eq':
                continue
            try:
                a, b, c = [self.ev(x) for x in args]
            except (KeyError, Unsupported):
                continue
            if not (isinstance(c, int) and c == 1 and len(b.e) > 1 and all(isinstance(k, int) and k == 1 for k in a.e)):
                continue
            g, others = [], 0
            al = args[1]
            while al[0] == 'id' and al[1] in self.arrays:
                al = self.arrays[al[1]][1]
            if al[0] != 'arr' or not all(x[0] == 'id' and x[1] in self.vars and self.nonneg(x[1]) for x in al[1]):
                continue
            for v in b.e:
                if isinstance(v, SI) and z3.is_const(v.e) and v.e.decl().name() in self.rbound and v.e.decl().name() not in used and (v.lo, v.hi) == (0, 1):
                    g.append(v.e)
                else:
                    others += 1      # a term expressed through others (declared non-negative)
            if g and len(set(x.decl().name() for x in g)) == len(g):
                used |= set(x.decl().name() for x in g)
                out.append((g, others > 0))
        return out

    def fresh(self, n):
        v, syms, c = self.fresh_(n)
        for x in syms:
            if z3.is_bool(x):
                self.rbound[x.decl().name()] = [z3.BoolVal(False), z3.BoolVal(True)]
            elif isinstance(v, SI) and v.hi - v.lo < 16:
                self.rbound[x.decl().name()] = [z3.BitVecVal(k, x.size()) if z3.is_bv(x) else z3.IntVal(k) for k in range(v.lo, v.hi + 1)]
        return v, syms, c

    def fresh_(self, n):
        ti = self.vars[n]
        b = ti[4]
        nm = "f!" + n
        if ti[3]:
            if b[0] != 'dom':
                raise Unsupported("unbounded flat set")
            from .interp import parset
            v = Set({k: z3.Bool("%s!%d" % (nm, k)) for k in parset(self.ev(b[1]))})
            return v, [x for x in v.m.values()], True
        if b[0] == 'base':
            if b[1] == 'bool':
                v = z3.Bool(nm)
                return v, [v], True
            if b[1] == 'float':
                v = z3.Real(nm)
                return v, [v], True
            v, c = S.var(nm, -self.unb, self.unb)
            return v, [v.e], c
        d = self.ev(b[1])
        if isinstance(d, FRng):
            v = z3.Real(nm)
            return v, [v], member(v, d)
        if isinstance(d, Rng):
            if d.lo > d.hi:
                return 0, [], False
            v, c = S.var(nm, d.lo, d.hi)
            return v, ([v.e] if isinstance(v, SI) else []), c
        vs = d.vals()
        if not vs:
            return 0, [], False
        v, c = S.var(nm, vs[0], vs[-1])
        return v, ([v.e] if isinstance(v, SI) else []), And(c, S.indom(v, vs))

    unb = 100000

    # ---- solving for introduced variables
    def outs(self, ci):
        """candidate (variable, kind) results of constraint ci"""
        name, args = self.cons[ci]
        r = []

        def idv(a):
            return a[1] if a[0] == 'id' and a[1] in self.vars else None
        if name.endswith('_reif'):
            v = idv(args[-1])
            if v:
                r.append((v, 'reif'))
            if name in ('bool_eq_reif',) and len(args) == 3:
                for k in (0, 1):
                    if idv(args[k]):
                        r.append((idv(args[k]), 'bxor%d' % k))
            return r
        if name in ('bool_xor',) and len(args) == 3:
            for k in (2, 0, 1):
                if idv(args[k]):
                    r.append((idv(args[k]), 'xor%d' % k))
            return r
        if name in ('bool_not', 'bool_xor', 'bool_ne') and len(args) == 2:
            for k in (1, 0):
                if idv(args[k]):
                    r.append((idv(args[k]), 'not%d' % k))
            return r
        if name == 'bool2int':
            if idv(args[1]):
                r.append((idv(args[1]), 'fn'))
            if idv(args[0]):
                r.append((idv(args[0]), 'i2b'))
            return r
        if name in FN:
            v = idv(args[FN[name][0]])
            if v:
                r.append((v, 'fn'))
            return r
        if name in ('int_eq', 'bool_eq', 'set_eq', 'float_eq'):
            for k in (1, 0):
                if idv(args[k]):
                    r.append((idv(args[k]), 'eq%d' % k))
            return r
        if name in ('int_lin_eq', 'float_lin_eq'):
            xs = args[1]
            if xs[0] == 'id' and xs[1] in self.arrays:
                xs = self.arrays[xs[1]][1]
            cs = self.ev(args[0])
            if xs[0] == 'arr':
                seen = {}
                for x in xs[1]:
                    if x[0] == 'id':
                        seen[x[1]] = seen.get(x[1], 0) + 1
                unit, other = [], []
                for c, x in zip(cs.e, xs[1]):
                    v = idv(x)
                    if v and seen[v] == 1 and c != 0:
                        (unit if abs(c) == 1 or name[0] == 'f' else other).append((v, 'lin'))
                r = unit + other
            return r
        return r

    def occurs(self, a, out):
        t = a[0]
        if t == 'id':
            n = a[1]
            if n in self.vars:
                out[n] = out.get(n, 0) + 1
            elif n in self.arrays:
                self.occurs(self.arrays[n][1], out)
        elif t in ('arr', 'set'):
            for x in a[1]:
                self.occurs(x, out)
        elif t == 'paren':
            self.occurs(a[1], out)
        elif t == 'un':
            self.occurs(a[2], out)

    def define(self, ci, v, kind):
        """compute the value of v from constraint ci; returns (value, side)"""
        name, args = self.cons[ci]
        if kind == 'reif':
            return base(name[:-5], [self.ev(a) for a in args[:-1]]), True
        if kind == 'fn':
            i, f = FN[name]
            rest = [self.ev(a) for k, a in enumerate(args) if k != i]
            return f(*rest)
        if kind[:2] == 'eq':
            return self.ev(args[1 - int(kind[2])]), True
        if kind[:3] == 'not':
            return Not(self.ev(args[1 - int(kind[3])])), True
        if kind[:3] == 'xor':
            k = int(kind[3])
            o = [self.ev(a) for j, a in enumerate(args) if j != k]
            return Xor(o[0], o[1]), True
        if kind[:4] == 'bxor':
            k = int(kind[4])
            o = [self.ev(a) for j, a in enumerate(args) if j != k]
            return Iff(o[0], o[1]), True
        if kind == 'i2b':
            x = num(self.ev(args[1]))
            return S.ceq(x, 1), And(S.le(0, x), S.le(x, 1))
        if kind == 'lin':
            cs = self.ev(args[0])
            xs = args[1]
            if xs[0] == 'id':
                xs = self.arrays[xs[1]][1]
            rhs = self.ev(args[2])
            mine = None
            if name[0] == 'f':
                tot = S.rv(rhs)
                for c, x in zip(cs.e, xs[1]):
                    if x[0] == 'id' and x[1] == v:
                        mine = c
                    else:
                        tot = S.rop('-', tot, S.rop('*', c, self.ev(x)))
                return S.rop('/', tot, Fraction(mine)), True
            tot = rhs
            for c, x in zip(cs.e, xs[1]):
                if x[0] == 'id' and x[1] == v:
                    mine = c
                else:
                    tot = S.sub(tot, S.mul(c, num(self.ev(x))))
            if mine == 1:
                return tot, True
            if mine == -1:
                return S.neg(tot), True
            return S.tdiv(tot, mine), S.ceq(S.tmod(tot, mine), 0)
        raise Unsupported(kind)

    def typed(self, n, v):
        """adjust representation of value v for variable n (bool var gets bool...)"""
        ti = self.vars[n]
        if ti[4] == ('base', 'bool') and not is_bool(v):
            raise Unsupported("bool expected")
        if isinstance(v, SI) and ti[4][0] == 'dom' and not ti[3]:
            pass
        return v

    def shrink(self, n, v):
        """after the domain check is recorded the interval may be narrowed: where
        the value is outside, the recorded condition is false already and whatever
        the rest evaluates to there does not matter"""
        ti = self.vars[n]
        if isinstance(v, SI) and ti[4][0] == 'dom' and not ti[3]:
            d = self.ev(ti[4][1])
            if isinstance(d, Rng):
                l, h = d.lo, d.hi
            elif isinstance(d, Set) and d.m:
                vs = d.vals()
                l, h = vs[0], vs[-1]
            else:
                return v
            if l > v.lo or h < v.hi:
                return S.clip(v, l, h) if max(l, v.lo) <= min(h, v.hi) else l
        return v

    def solve_all(self, preset):
        """preset: name -> value for variables fixed by the source mapping.
        Fills self.val, self.conds (all conditions), self.residual."""
        self.val = {}
        for n, v in preset.items():
            self.val[n] = v
        for n in preset:
            if n in self.vars:
                self.val[n] = widen(preset[n])
                self.conds.append(self.domain(n))
                self.val[n] = self.shrink(n, self.val[n])
        for n, rhs in self.alias.items():
            self.cons.append(('!alias', [('id', n), rhs]))
        ncons = len(self.cons)
        refs = []
        for name, args in self.cons:
            s = set()
            for a in args:
                self.refs(a, s)
            refs.append(s)
        pend = [len([v for v in s if v not in self.val]) for s in refs]
        uses = {}
        for i, s in enumerate(refs):
            for v in s:
                if v not in self.val:
                    uses.setdefault(v, []).append(i)
        unknown = [n for n in self.vars if n not in self.val]
        unk = set(unknown)
        used = [False] * ncons
        candof = {}
        for i in range(ncons):
            nm, args = self.cons[i]
            if nm == '!alias':
                o = [(args[0][1], 'alias')]
                if args[1][0] == 'id':
                    o.append((args[1][1], 'alias'))
            else:
                o = self.outs(i)
                if o:
                    occ = {}
                    for a in args:
                        self.occurs(a, occ)
                    # a constraint such as bool_eq(x, x) determines nothing
                    o = [q for q in o if occ.get(q[0]) == 1]
            for v, k in o:
                if v in unk:
                    candof.setdefault(i, []).append((v, k))
        ready = [i for i in range(ncons) if pend[i] == 1 and i in candof]
        hascand = set(v for i in candof for v, _ in candof[i])

        def setv(v, value):
            self.val[v] = value
            unk.discard(v)
            for i in uses.get(v, ()):
                pend[i] -= 1
                if pend[i] == 1 and i in candof and not used[i]:
                    ready.append(i)
        upos = 0
        free = [n for n in unknown if n not in hascand]
        fpos = 0
        while unk:
            if ready:
                i = ready.pop()
                if used[i]:
                    continue
                c = [(v, k) for v, k in candof[i] if v in unk]
                if not c or pend[i] != 1:
                    continue
                v, k = c[0]
                nm, args = self.cons[i]
                used[i] = True
                if k == 'alias':
                    o = args[1] if args[0][1] == v else args[0]
                    value, side = self.ev(o), True
                else:
                    value, side = self.define(i, v, k)
                value = self.typed(v, value)
                self.conds.append(side)
                self.val[v] = value
                self.conds.append(self.domain(v))
                setv(v, self.shrink(v, value))
                continue
            # nothing ready: pick a residual variable
            while fpos < len(free) and free[fpos] not in unk:
                fpos += 1
            if fpos < len(free):
                n = free[fpos]
            else:
                while unknown[upos] not in unk:
                    upos += 1
                n = unknown[upos]
            v, syms, c = self.fresh(n)
            if syms:
                self.residual[n] = syms
            self.conds.append(c)
            setv(n, v)
        for i in range(ncons):
            if used[i]:
                continue
            nm, args = self.cons[i]
            a = [self.ev(x) for x in args]
            self.conds.append(eq(*a) if nm == '!alias' else cond(nm, a))
        return And(self.conds)
