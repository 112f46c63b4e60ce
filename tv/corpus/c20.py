"""Compile-time evaluation: the compiler tabulates a parameter expression for all values of its parameters; the
solver decides that the table agrees everywhere with the expression's meaning (parameters symbolic)."""
from .util import *
import re as _re

IDX = {'p': '-3..3', 'q': '-3..3', 'r': '0..3', 'bi': '1..2', 'ci': '1..2', 'di': '1..2', 'si': '1..8', 'ti': '1..8', 'ai': '1..27', 'ci3': '1..8', 'fi': '1..7', 'gi': '1..7', 'oi': '1..4', 'pi': '1..4', 'ei': '1..3', 'ej': '1..3', 'ui': '1..6', 'vi': '1..6'}
SUB = {'pb': 'PB[bi]', 'qb': 'PB[ci]', 'rb': 'PB[di]', 'ps': 'PSS[si]', 'qs': 'PSS[ti]', 'pa': '[PAA[ai,v0] | v0 in 1..3]', 'pba': '[PBA[ci3,v0] | v0 in 1..3]', 'pf': 'PF[fi]', 'qf': 'PF[gi]', 'po': 'PO[oi]', 'qo': 'PO[pi]', 'xs': 'PXS[ui]', 'ys': 'PXS[vi]', 'pn': '[PAA[ai,v0] | v0 in 1..(r)]'}
PAA = [(a, b, c) for a in (-1, 0, 2) for b in (-1, 0, 2) for c in (-1, 0, 2)]
DECL = {
    'PB': 'array[1..2] of bool: PB = [false,true];', 'PSS': 'array[1..8] of set of int: PSS = [{},{0},{1},{2},0..1,{0,2},1..2,0..2];',
    'PAA': 'array[1..27,1..3] of int: PAA = array2d(1..27,1..3,[%s]);' % ','.join('%d,%d,%d' % t for t in PAA),
    'PBA': 'array[1..8,1..3] of bool: PBA = array2d(1..8,1..3,[%s]);' % ','.join(('false', 'true')[x >> k & 1] for x in range(8) for k in range(3)),
    'PF': 'array[1..7] of float: PF = [-2.5,-1.0,-0.25,0.0,0.5,1.0,3.0];', 'PO': 'array[1..4] of opt int: PO = [<>,-1,0,2];',
    'PXS': 'array[1..6] of set of int: PXS = [{},-3..3,{-4,-1,0,5},{7},2..6,{-3,-2,0,1,2,4}];',
    'w': 'array[1..4] of int: w = [3,-1,0,2];', 'w0': 'array[0..2] of int: w0 = array1d(0..2,[5,-6,7]);', 'mm': 'array[0..1,-1..1] of int: mm = array2d(0..1,-1..1,[1,2,3,-4,5,-6]);',
}
INTS = ['p + q', 'p - q', 'p*q', '-p', 'abs(p)', 'abs(p - q)*2', 'p*p - q', 'min(p,q)', 'max(p,q)', 'min([p,q,r])', 'max([p,q,-1])', 'sum([p,q,r])', 'product([p,q,r])', 'if q != 0 then p div q else 99 endif', 'if q != 0 then p mod q else 99 endif', '7*p div 3', '7*p div -3', '7*p mod 3', '(7*p) mod -3', 'pow(p,2)', 'pow(p,r)', 'p^r', 'pow(2,r)', 'pow(-1,r)*p', 'if p = 1 \\/ p = -1 then pow(p,q) else 77 endif', 'pow(1,p)', 'if p != 0 then pow(p,-r) else 5 endif',
        'bool2int(pb) + p', 'bool2int(p < q)', 'if pb then p else q endif', 'if p < q then 1 elseif p = q then 2 else 3 endif', 'if pb /\\ qb then p elseif pb then q elseif qb then -p else r endif', 'w[r + 1]', 'w0[min(2,r)]', 'mm[bool2int(pb),max(-1,min(1,p))]', 'let { int: v1 = p + q; int: v2 = v1*v1 } in v2 - v1', 'card(ps)', 'card(ps union qs)', 'card(ps diff qs)', 'card(ps symdiff qs)', 'card(ps intersect qs)', 'card(p..q)', 'card({p,q,r})', 'card({v1 | v1 in p..q where v1 mod 2 = 0})', 'sum(ps)', 'sum(v1 in ps)(v1*p)', 'sum(v1 in ps, v2 in qs where v1 < v2)(v1 + v2)',
        'sum(v1 in p..q)(v1)', 'sum([v1*v2 | v1,v2 in 0..r where v1 <= v2])', 'max([v1*p | v1 in -1..1])', 'length([v1 | v1 in p..q])', 'length([1 | v1 in ps where v1 > 0])', 'sum(pa)', 'max(pa)', 'min(pa)', 'product(pa)', 'pa[1] + 2*pa[3]', 'pa[if pb then 2 else 3 endif]', 'sum(reverse(pa))', 'sort(pa)[1]', 'sort(pa)[2]', 'sort(pa)[3]', 'reverse(pa)[1] - pa[1]', '(pa ++ [p])[4]', 'sum(pa ++ pa)', 'sum(v1 in index_set(pa))(v1*pa[v1])', 'count(pa,0)', 'count(pa,p)', 'sum([bool2int(v1 > 0) | v1 in pa])', 'arg_max(pa)', 'arg_min(pa)', 'arg_sort(pa)[1]', 'arg_sort(pa)[2]', 'arg_sort(pa)[3]', 'arg_max(pba)', 'arg_min(pba)',
        'sort_by([10,20,30],pa)[1]', 'sort_by([10,20,30],pa)[2]', 'sort_by([10,20,30],pa)[3]', 'sum(pa[2..3])', 'sum(pa[1..2])', 'card(index_set(pa))', 'max(index_set(pa ++ pa))', 'card(array2set(pa))', 'if card(ps) > 0 then min(ps) else 9 endif', 'if card(ps) > 0 then max(ps) else 9 endif', 'max(ps union {0})', 'sum(v1 in [v2 | v2 in ps])(v1)', 'set2array(ps union {2})[1]', 'po default 7', 'if occurs(po) then deopt(po) else 8 endif', 'bool2int(absent(po))', 'sum(v1 in pa where v1 > p)(v1)', 'max([pa[v1] - v1 | v1 in 1..3])', 'count(pba,true)', 'sum(pba)', 'bool2int(forall(pba))', 'array2d(1..1,1..3,pa)[1,2]', 'row(array2d(1..2,1..3,pa ++ pa),2)[3]', 'col(array2d(1..3,1..1,pa),1)[2]',
        'floor(pf)', 'ceil(pf)', 'round(pf)', 'floor(pf + qf)', 'round(pf*2.0)', 'ceil(pf - 0.5)', 'floor(p/2)', 'ceil(p/4)', 'round(int2float(p))', 'trunc(p/2)', 'if pf < qf then 1 else 0 endif', 'lb(p)', 'ub(q)', 'fix(p)', 'card(dom(p))', 'foldl(ff, 0, pa)', 'foldr(ff, 0, pa)', 'sum(xs)', 'card(xs intersect ys)', 'card(xs union ys)', 'card(xs diff ys)', 'card(xs symdiff ys)', 'sum(xs union ys)', 'sum(xs intersect ys)', 'sum(xs diff ys)', 'sum(xs symdiff ys)', 'max(xs union {-9})', 'min(xs diff ys union {9})', 'fi2(p)', 'fi2(fi2(q))', 'gcd1(abs(p) + 1,r + 1)', 'internal_sum(pa)', 'string_length(show(p))', 'string_length("a\\(p)b\\(q)")', 'string_length(concat(["\\(v1)" | v1 in ps]))', 'string_length(join(",",["x" | v1 in ps]))', 'length(has_ann)']
INTS = [e for e in INTS if not any(k in e for k in ('internal_sum', 'has_ann', 'foldl', 'foldr', 'trunc', 'set2array(', 'string', 'sum(ps)', 'sum(xs'))] + ['foldl(ff,0,pa)', 'foldr(ff,0,pa)', 'sum(v1 in xs union ys)(v1)', 'sum(v1 in xs diff ys)(v1)', 'sum(v1 in xs intersect ys)(v1)', 'sum(v1 in xs symdiff ys)(v1*v1)', 'set2array(ps)[1] + 0*card(ps)', 'sum(v1 in xs)(v1)', 'sum(v1 in ps)(v1)']
INTS = [e for e in INTS if not any(k in e for k in ('set2array', 'length([', 'index_set(pa ++'))]
BOOLS = ['p < q', 'p <= q', 'p = q', 'p != q', 'p > q', 'p >= q', 'pb /\\ qb', 'pb \\/ qb', 'pb -> qb', 'pb <- qb', 'pb <-> qb', 'pb xor qb', 'not pb', 'pb < qb', 'pb <= qb', 'pb = qb', 'pb != qb', 'pb > qb', 'pb >= qb', '(pb -> qb) -> rb', 'not (pb /\\ not qb) xor rb', 'p div q = 1', 'p mod q = 1', 'not (p div q = 1)', 'p div q > 0 \\/ pb', 'pb -> p mod q = 0', 'w[p] = 3', 'not (w[p] = 3)', 'w[w[p]] > 0', 'pow(p,q) = 1', 'pow(p,q) >= 0', 'not (pow(p,q) > 1)', 'mm[p,q] > 0', 'mm[p,q] > 0 \\/ pb', 'w0[p] > 0 <-> pb', 'p in ps', 'not (p in ps)', 'p in q..r', 'p in {q,r,1}', 'p in xs', 'ps subset qs', 'ps superset qs', 'ps = qs', 'ps != qs', 'ps < qs', 'ps <= qs', 'ps > qs', 'ps >= qs', 'xs < ys', 'xs <= ys', 'xs subset ys', 'xs superset ys', 'xs = ys', 'ps union qs = 0..2', 'ps diff qs = {}', 'ps intersect qs = {1}', 'ps symdiff qs subset {0,2}', 'p..q = q..p', 'p..q subset q..r', '(p..q) union (q..r) = p..r', 'card(ps) = p', 'min(ps) = 1', 'max(ps) = 2', 'not (min(ps) > 0)', 'max(ps diff qs) > 0 \\/ pb',
         'forall(v1 in ps)(v1 > 0)', 'exists(v1 in ps)(v1 > 0)', 'forall(v1 in p..q)(v1 != 1)', 'exists(v1 in p..q, v2 in 0..r)(v1*v2 = 4)', 'forall(pba)', 'exists(pba)', 'xorall(pba)', 'iffall(pba)', 'clause(pba,[pb])', 'pa = reverse(pa)', 'pa != reverse(pa)', 'pa < reverse(pa)', 'pa <= reverse(pa)', 'pa > [0,0,0]', 'pa >= [0,2]', 'pa <= [0,2]', 'pa < [0,0,0,0]', 'increasing(pa)', 'decreasing(pa)', 'sort(pa) = pa', 'arg_sort(pa) = [1,2,3]', 'all_different(pa)', 'all_equal(pa)', '[pb,qb] < [qb,rb]', '[ps,qs] < [qs,ps]', '[pf,qf] < [qf,pf]', 'pf < qf', 'pf <= qf', 'pf = qf', 'pf != qf', 'pf + qf > 0.0', 'pf*qf = 0.5', 'pf/qf > 1.0', 'not (pf/qf > 1.0)', 'pf - qf >= p', 'p > pf', 'pf = p', 'min(pf,qf) < 0.0', 'max([pf,qf]) >= 1.0', 'abs(pf) > 1.0', 'pf*pf >= 0.25', 'sum([pf,qf]) = 0.0', 'pow(pf,2) = 1.0', 'pf in -1.0..1.0', 'occurs(po)', 'absent(po)', 'po = qo', 'po != qo', 'po < qo', 'po <= p', 'po = p', 'deopt(po) > 0', 'not (deopt(po) > 0)', 'po default p = q', '(po default 5) > (qo default 6)', 'po + 1 = qo default 2', 'sqrt(p) > 1.0', 'not (sqrt(p) > 1.0)', 'w[po] = 3', 'is_fixed(p)', 'pa[p] = 0', 'not (pa[p] = 0)', 'pa[p] = 0 -> pb', 'max(pn) > 0', 'min(pn) < 0', 'not (max(pn) > 0)', 'sum(pn) > 0', 'forall(pn > [0])', 'product(pn) = 0', 'arg_max(pn) = 2', 'exists([pb,p < q,r = 2])', 'forall([pb \\/ qb,p < q])', 'if p = q then pb elseif p < q then qb else not pb endif', 'let { int: v1 = p div q } in v1 > 0', 'let { int: v1 = w[p] } in (v1 > 0 \\/ pb)', 'assert(p < 9,"m",pb)', 'pb = (p < q)', 'bool2int(pb) = p', 'p*q*r = 0', 'p < q /\\ q < r', '[p,q,r][p] = q', '[v1 | v1 in p..q][1] = r', 'sum([v1 | v1 in ps where v1 > p]) = q', 'p mod (q mod r) = 0', '-p div 2 = q', '(-p) mod 3 = r', 'min([v1 | v1 in ps]) = p', 'max(array2set(pa)) = p', 'card(array2set(pn)) = q', 'array_union([ps,qs]) = {0,1,2}', 'array_intersect([ps,qs]) = {}', '{v1 + p | v1 in ps} = qs', '{v1*v2 | v1,v2 in ps} subset qs', 'p in ub(q)..r', '(p,q) = (q,p)', '(p,pb) < (q,qb)', '(p,q,r) <= (q,r,p)', '(a: p, b: pb).a = q', '(p,(q,r)).2.1 = p', '(ps,p) = (qs,q)', '(a: p, b: qs) = (a: q, b: ps)', 'at_most1b(pba)', '"\\(p)" = "\\(q)"', '"\\(p)" < "\\(q)"']
BOOLS = [e for e in BOOLS if not any(k in e for k in ('"\\\\(', '"\\(', 'at_most1b', 'ub(q)', 'forall(pn >', 'creasing', 'all_different', 'all_equal', '[0,2]', '[0,0,0,0]', 'g][1]', 'p..q][1]', 'arg_max(pn)', 'sqrt', 'is_fixed', 'po + 1', 'po default p = q'))]
SETS = ['ps union qs', 'ps intersect qs', 'ps diff qs', 'ps symdiff qs', 'xs union ys', 'xs intersect ys', 'xs diff ys', 'xs symdiff ys', 'p..q', '(p..q) union (q..r)', '(p..q) diff (q..r)', '(p..q) intersect (-1..r)', '(p..q) symdiff (-2..r)', '{p,q,r}', '{p} union ps', 'ps diff {p}', '{v1 | v1 in p..q where v1 mod 2 = 0}', '{v1*v2 | v1 in ps, v2 in qs}', '{v1 + p | v1 in ps}', 'if pb then ps else qs endif', 'array2set(pa)', 'array_union([ps,qs,{p}])', 'array_intersect([ps,qs])', '[ps,qs,{5}][r + 1 - (r div 3)]', 'let { set of int: v1 = ps union qs } in v1 diff {p}', '(xs diff ys) union (ys diff xs)', 'xs intersect p..q', 'xs union p..q', 'xs diff p..q', 'p..q diff xs', 'index_set([0 | v1 in 1..r])', 'index_set(pa ++ pn)', '{v1 | v1 in xs where not (v1 in ys)}', 'xs union ys union {p}', '{ -v1 | v1 in xs }', 'dom_array(pa)', '{pa[v1] | v1 in ps where v1 > 0}', 'min(p,q)..max(p,q)', 'xs symdiff p..q', '(xs union ys) diff (xs intersect ys)']
SETS = [e for e in SETS if not any(k in e for k in ('dom_array', 'index_set('))]
PRE = {'ff': 'function int: ff(int: v7, int: v8) = 2*v7 - v8;', 'fi2': 'function int: fi2(int: v7) = if v7 > 1 then v7 - 1 else 2*v7 endif;', 'fib': 'function int: fib(int: v7) = if v7 < 2 then v7 else fib(v7 - 1) + fib(v7 - 2) endif;', 'gcd1': 'function int: gcd1(int: v7, int: v8) = if v8 = 0 then v7 else gcd1(v8, v7 mod v8) endif;'}
RULE = 'parameter expressions (arithmetic, logic with undefined subexpressions, sets, arrays, sorting, comprehensions, tuples, options, floats) tabulated by the compiler over all parameter values; the emitted table must equal the meaning of the expression for every (symbolic) parameter value'


class Skip(Exception):
    pass


def sub(e):
    return _re.sub(r"(?<![A-Za-z0-9_.'])([a-z]+)\b(?!\()", lambda m: SUB.get(m.group(1), m.group(1)), e)


def tab(id, e, ty):
    t = sub(e)
    t = sub(t)      # pn mentions r, which is itself an index
    used = [k for k in IDX if _re.search(r'(?<![A-Za-z0-9_])%s\b' % k, t)]
    n = 1
    for k in used:
        a, b = IDX[k].split('..')
        n *= int(b) - int(a) + 1
    if not used or len(used) > 5 or n > 1600:
        raise Skip(e)
    decl = ' '.join(DECL[k] for k in DECL if _re.search(r'(?<![A-Za-z0-9_])%s\b' % k, t))
    pre = ' '.join(PRE[k] for k in PRE if _re.search(r'(?<![A-Za-z0-9_])%s\b' % k, t))
    if 'all_different' in t or 'all_equal' in t or 'creasing' in t:
        pre += ' include "globals.mzn";'
    vt = {'int': 'var -100000..100000: V;', 'bool': 'var bool: V;', 'set': 'var set of -30..30: V;'}[ty]
    pt = {'int': 'int', 'bool': 'bool', 'set': 'set of int'}[ty]
    vs = ' '.join('var %s: %s;' % (IDX[k], k) for k in used)
    base = '%s\n%s\n%s %s\n' % (decl, pre, vs, vt)
    # generator names may not clash with the index variables
    g = {k: 'g_' + k for k in used}
    te = _re.sub(r"(?<![A-Za-z0-9_])(%s)\b" % '|'.join(used), lambda m: g[m.group(1)], t)
    src = base + 'array[%s] of %s: T = array%dd(%s,[%s | %s]);\nconstraint V = T[%s];\nsolve satisfy;\n' % (
        ','.join('int' for k in used), pt, len(used), ','.join(IDX[k] for k in used), te, ', '.join('%s in %s' % (g[k], IDX[k]) for k in used), ','.join(used))
    ref = base.replace('function int:', 'function var int:').replace('(int: v7', '(var int: v7').replace(', int: v8', ', var int: v8') + 'constraint V = (%s);\nsolve satisfy;\n' % t
    return Case(id, src, ref=ref, mode='int' if 'PF' in t else 'bv')


class RR:
    """random total parameter expressions"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def i(self, d):
        r = self.r
        if d <= 0:
            return r.choice(['p', 'q', 'r', 'p', '1', '2', '-1', '3', 'bool2int(pb)'])
        k = r.randrange(13)
        a = lambda: self.i(d - 1)
        if k < 3:
            return '(%s %s %s)' % (a(), r.choice(['+', '-', '*']), a())
        if k == 3:
            return '%s(%s,%s)' % (r.choice(['min', 'max']), a(), a())
        if k == 4:
            return 'abs(%s)' % a()
        if k == 5:
            return '(%s %s %s)' % (a(), r.choice(['div', 'mod']), r.choice(['2', '-2', '3', '(1 + abs(%s))' % a(), '(-1 - abs(%s))' % a()]))
        if k == 6:
            return '(if %s then %s else %s endif)' % (self.b(d - 1), a(), a())
        if k == 7:
            return 'sum(v%d in %s where %s)(v%d + %s)' % (d, self.s(d - 1), self.b(d - 1), d, a())
        if k == 8:
            return '(let { int: v%d = %s } in v%d*v%d - %s)' % (d, a(), d, d, a())
        if k == 9:
            return 'card(%s)' % self.s(d - 1)
        if k == 10:
            return '[%s,%s,%s][1 + abs(%s) mod 3]' % (a(), a(), a(), a())
        if k == 11:
            return '%s([%s,%s,%s])' % (r.choice(['min', 'max', 'sum']), a(), a(), a())
        return 'pow(%s,%s)' % (r.choice(['p', 'q', '2', '-1']), r.choice(['r', '2', '0', '3']))

    def b(self, d):
        r = self.r
        if d <= 0:
            return r.choice(['pb', '(p < q)', '(p = 1)', '(q > r)', '(p in ps)', 'qb', '(r != 1)'])
        k = r.randrange(12)
        if k < 4:
            return '(%s %s %s)' % (self.b(d - 1), r.choice(['/\\', '\\/', '->', '<->', 'xor', '<-', '<', '<=', '=', '!=']), self.b(d - 1))
        if k < 7:
            return '(%s %s %s)' % (self.i(d - 1), r.choice(['<', '<=', '=', '!=', '>', '>=']), self.i(d - 1))
        if k == 7:
            return '(not (%s))' % self.b(d - 1)
        if k == 8:
            return '(%s in %s)' % (self.i(d - 1), self.s(d - 1))
        if k == 9:
            return '(%s %s %s)' % (self.s(d - 1), r.choice(['subset', 'superset', '=', '!=', '<', '<=']), self.s(d - 1))
        if k == 10:
            return '(%s %s %s = %s)' % (self.i(d - 1), r.choice(['div', 'mod']), self.i(d - 1), self.i(d - 1))
        return '(%s(v%d in %s)(%s))' % (r.choice(['forall', 'exists']), d, self.s(d - 1), '(v%d < %s) %s %s' % (d, self.i(d - 1), r.choice(['/\\', '\\/', 'xor']), self.b(d - 1)))

    def s(self, d):
        r = self.r
        if d <= 0:
            return r.choice(['ps', '0..r', '{p,q}', 'p..q', '{}', '-1..2', '{1,3}', 'ps'])
        k = r.randrange(5)
        if k < 3:
            return '(%s %s %s)' % (self.s(d - 1), r.choice(['union', 'intersect', 'diff', 'symdiff']), self.s(d - 1))
        if k == 3:
            return '{v%d | v%d in %s where %s}' % (d, d, self.s(d - 1), self.b(d - 1))
        return '((%s)..(%s))' % (self.i(0), self.i(0))


def cases(tier, seed):
    F = full(tier)
    out = []
    for nm, es, ty in (('i', INTS, 'int'), ('b', BOOLS, 'bool'), ('s', SETS, 'set')):
        for n, e in enumerate(es):
            try:
                out.append(tab('%s%d' % (nm, n), e, ty))
            except Skip:
                pass
    k = 0
    n = 4000 if F else 330
    while n:
        k += 1
        R = RR('c20-%d-%d' % (seed, k))
        ty = ['int', 'bool', 'bool', 'set'][k % 4]
        e = {'int': R.i, 'bool': R.b, 'set': R.s}[ty](2 + (k % 3 == 0))
        try:
            out.append(tab('r%d-%d' % (seed, k), e, ty))
            n -= 1
        except Skip:
            pass
    return out
