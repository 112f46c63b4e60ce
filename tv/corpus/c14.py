"""Bounds and domains: var lb(E)..ub(E): v; constraint v = E must have the solutions of v = E with a wide v."""
from .util import *
from . import c03, c05, c06

INTS = ['x + y', 'x - y', '-x', 'x*y', 'x*x', 'x*y*z', 'x - 2*y + 3', '3*x - 2*y + z', 'x*(y - z)', '(x + y)*(x - y)', '-x*y', 'x*-y', '(x - 1)*(y + 2)', 'x div y', 'y div x', 'x div 2', 'x div -2', '-x div 3', '7 div x', '-7 div y', 'x div (y + 1)', 'x*y div z', 'x mod y',
        'y mod x', 'x mod 3', 'x mod -3', '7 mod y', '-7 mod y', '(x + y) mod 4', '(x*y) mod z', 'abs(x)', 'abs(x - y)', 'abs(x*y)', '-abs(y)', 'pow(x,2)', 'pow(x,3)', 'pow(y,4)', 'pow(x,0)', 'pow(2,i)', 'pow(-2,i)', 'pow(i,i)', 'pow(y,i)', 'pow(x,-1)', 'pow(y,-2)', 'x^2', 'y^3', '2^i', 'pow(3,j)', 'pow(-1,j)', 'pow(x,k)', 'pow(x - y,2)', 'min(x,y)', 'max(x,y)',
        'min([x,y,z])', 'max([x,y,z])', 'max(x,2)', 'min(y,-1)', 'max(x*y,z)', 'min(x div 2,y)', 'max([x,y] ++ [z])', 'sum([x,y,z])', 'sum(v1 in 1..3)(v1*x)', 'sum([x*y,z,-2])', 'product([x,y])', 'product([x,y,z])', 'product([x,x])', 'card(s)', 'card(s union t)', 'card(s intersect t)', 'card(s diff t)', 'card(s symdiff t)', 'card(t)',
        'a[i]', 'a[j]', 'a[x]', 'xs[i]', 'w[i]', 'w[j]', 'w[x]', 'm[j,i]', '[x,y,z][j]', '[1,5,-3][j]', '[x,7][j]', 'w[j + 1]', 'a[j] + w[i]', 'if b then x else y endif', 'if b then 3 else x*y endif', 'if x > y then x elseif b then z else -5 endif', 'if b then x else -x endif', '[x,y][1 + bool2int(b)]', 'bool2int(b)', 'bool2int(b) - bool2int(c)', '2*bool2int(x < y)', 'b*x',
        'let { var int: v1 = x + y } in v1*2', 'let { var -2..9: v1; constraint v1 = x*2 } in v1', 'let { var int: v1; constraint v1 = x - y } in v1', 'let { var int: v1 = max(x,y); var int: v2 = min(x,y) } in v1 - v2', 'let { constraint x > 0 } in x', 'count([x,y,z],1)', 'count([x,y,z],x)', 'sum(v1 in 1..3 where v1 > j)(v1*x)', 'sum([x | v1 in 1..3 where v1 > j])', 'max([v1 | v1 in 1..4 where v1 > j])',
        'ff(x)', 'ff(ff(y))', 'gg(x,y)', 'deopt(o)', 'o default 7', 'o default -9', 'occurs(o)*5', 'x + (o default y)', 'oa[j] default 3', 'min(s)', 'max(t)', 'min(s union t)', 'max(s diff t)', 'sum(v1 in s)(v1)', 'e + 1', 'e*f2', 'e div f2', 'abs(e)', 'e mod f2', 'sum([])', 'x - x', '0*x', 'x*0 + y', 'x + 10000*y', '-(-(x))', 'x + y + x + y', '2*(x + y) - 3*(x - y)', 'x - (y - (z - i))']
PRE = 'function var int: ff(var int: v7) = if v7 > 1 then v7 - 1 else 2*v7 endif; function var int: gg(var int: v7, var int: v8) = let { var int: v6 = v7*v8; constraint v6 < 8 } in v6 - v7;'
EXTRA = {'e': 'var -4..4: e;', 'f2': 'var -2..2: f2;', 'V': 'var -100000..100000: V;', 'W': 'var -100000..100000: W;', 'VS': 'var set of -20..20: VS;'}
# context: compiled, reference
T = [('var lb(%E)..ub(%E): V; constraint V = %E', 'constraint V = %E'),
     ('constraint V in dom(%E) /\\ V = %E', 'constraint V = %E'),
     ('constraint V = %E', 'constraint V = %E'),
     ('constraint (V >= lb(%E) /\\ V <= ub(%E)) <-> b; constraint V = %E', 'constraint b; constraint V = %E'),
     ('int: L = lb_array([%E,x]); int: U = ub_array([y,%E]); constraint V = %E; constraint V >= L /\\ V <= U /\\ x >= L /\\ y <= U', 'constraint V = %E'),
     ('constraint V = %E /\\ V in dom_array([z,%E])', 'constraint V = %E'),
     ('constraint V = %E /\\ if is_fixed(%E) then V = fix(%E) else true endif', 'constraint V = %E'),
     ('constraint V = %E /\\ if has_bounds(%E) then V <= ub(%E) /\\ V >= lb(%E) else true endif', 'constraint V = %E'),
     ('var lb(%E)..ub(%E): V; constraint b <-> V > 1; constraint b -> V = %E; constraint V != %E -> not b', 'constraint b <-> V > 1; constraint b -> V = %E; constraint V != %E -> not b; constraint %B'),
     ('any: V :: add_to_output = %E', 'constraint V = %E'), ('var int: V :: add_to_output = %E; constraint V >= lb(V) /\\ V <= ub(V) /\\ V in dom(V)', 'constraint V = %E'),
     ('constraint V = %E; constraint b -> V <= ub(%E) - 1; constraint not b -> V = ub(%E) \\/ V = lb(%E)', None),
     ('array[1..2] of var int: v9 = [%E, %E + 1]; constraint V = v9[W]; constraint W in 1..2 /\\ V >= min(lb_array(v9)) /\\ V <= ub_array(v9)', None)]
T = T[:8] + T[9:11]
SETS = ['s union t', 's intersect t', 's diff t', 's symdiff t', 's', 'if b then s else t endif', '[s,t,u][j]', 's union {1,7}', 's intersect 1..2', '{1,2,9} diff s', '{v1 | v1 in s where v1 > 1}', 's union t union u', '(s diff t) union u', 's symdiff {0,3}', 'sa[b + 1]', 'array_union([s,t])', 'array_intersect([s,t,u])', 'let { var set of 0..3: v1; constraint v1 = s intersect 0..3 } in v1', 'let { var set of int: v1 = s union t } in v1 diff u', '{x,y}', '[1..3,{5},{}][j]', 's diff s', 'SS[j]', 'S union s', 'S diff s', 's diff S', 't symdiff S']
TS = [('constraint VS subset ub(%E) /\\ lb(%E) subset VS /\\ VS = %E', 'constraint VS = %E'), ('var set of ub(%E): VS; constraint VS = %E', 'constraint VS = %E'), ('constraint VS = %E /\\ card(VS) <= card(ub(%E)) /\\ VS subset ub_array([%E,u])', 'constraint VS = %E'), ('any: VS :: add_to_output = %E', 'constraint VS = %E')]
BOOLS = ['x < y', 'x + 20 > y', 'x*0 = 0', 'b \\/ x = x', 'x in -100..100', 'a[j] > 100', 'b /\\ x > 50', 'x > 50', 'not (x < -50)', 'x = y', 'x <= z', 'x != 40', 'x*y >= -400', 'x div y > 3', 'max(x,y) < 100', 'abs(x) >= 0', 'x in S', 'x in {}', 's subset -50..50', 's subset {}', 'card(s) >= 0', 'card(s) > 9', 'exists([x > 100, y > 100])', 'forall([x < 100, y < 100])', 'exists([])', 'x mod 2 < 2', 'pow(x,2) >= 0', 'if b then x > 100 else y > 100 endif', 'b xor b', 'x < x', 'x >= x', 'x - x = 0', 'bool2int(b) >= 0', 'bool2int(b) > 1', 'a[i] <= 4', 'w[i] in -1..5', 'x = 1 -> x >= 1']
TB = [('constraint b <-> (if is_fixed(%E) then fix(%E) else (%E) endif)', 'constraint b <-> (%E)'), ('constraint c <-> (%E); constraint b <-> is_fixed(%E) /\\ (fix(%E) <-> not (%E)); constraint not b', 'constraint c <-> (%E); constraint not b'), ('any: c :: add_to_output = %E', 'constraint c <-> (%E)')]
TB = [TB[0], TB[2]]
FLOATS = ['f + g', 'f - g', '-f', 'f*g', 'f*f', '2.5*f - g', 'f*(g - 1.0)', 'abs(f)', 'abs(f - g)', 'min(f,g)', 'max(f,g)', 'max([f,g,1.5])', 'sum([f,g,f])', 'int2float(x)', 'x + f', '0.5*x', 'x*f', 'if b then f else g endif', '[f,g][1 + b]', 'fa[j]', 'fw[j]', 'f + fa[j]', 'let { var float: v1 = f + g } in v1*2.0', 'f - f', '0.0*f + g', '-(f - g)*2.0', 'min([f,g]) - max([f,g])', 'pow(f,2)', 'f^2', 'b*f']
TF = [('var lb(%E)..ub(%E): VF; constraint VF = %E', 'constraint VF = %E'), ('constraint VF = %E; constraint VF >= lb(%E) /\\ VF <= ub(%E)', 'constraint VF = %E'), ('any: VF :: add_to_output = %E', 'constraint VF = %E'), ('float: L = lb_array([%E,f]); constraint VF = %E; constraint VF >= L /\\ f >= L', 'constraint VF = %E')]
EXTRA['VF'] = 'var -10000.0..10000.0: VF;'
RULE = 'integer, set, Boolean and float expressions x ways of using the inferred bounds (declared domain lb..ub, dom, lb_array/ub_array/dom_array, is_fixed/fix, has_bounds, type-inst any) x domain profiles: adding the inferred bounds must not change the set of solutions; also random expressions'


import re as _re


def strip(t):
    """variables declared by the template are not declared again"""
    ex = dict(EXTRA)
    for v in ('V', 'VS', 'VF'):
        if _re.search(r'(var [^;:]*|any): %s\b' % v, t):
            ex.pop(v)
    if _re.search(r'any: c\b', t):
        ex['c'] = ''
    return ex


def one(name, e, t, p, lib):
    c, r = t
    pre = PRE if ('ff(' in e or 'gg(' in e) else ''
    src = gen.model(c.replace('%E', '(%s)' % e) + ';', p, pre=pre, extra=strip(c))
    ref = gen.model(r.replace('%E', '(%s)' % e) + ';', p, pre=pre, extra=EXTRA)
    if 'add_to_output' in c:
        h, nl, t2 = src.partition('\n')
        src = _re.sub(r'(var [^;:]*): (\w+);', r'\1: \2 :: add_to_output;', h) + nl + t2
    return Case('%s-%s' % (name, lib), src, lib=lib, ref=ref, mode='int' if name[0] == 'f' else 'bv', refuse='result of evaluation is undefined' if name[0] == 'r' or 'let { constraint' in e else None)


def cases(tier, seed):
    F = full(tier)
    rng = random.Random('c14-%d' % seed)
    out = []
    for nm, es, ts, libs in (('i', INTS, T, ('std', 'half', 'linear')), ('s', SETS, TS, ('std', 'nosets')), ('b', BOOLS, TB, ('std',)), ('f', FLOATS, TF, ('std',))):
        for n, e in enumerate(es):
            for k, t in enumerate(ts):
                for p in (range(6) if F else rng.sample(range(6), 1 if nm == 'i' else 3)):
                    l = libs[(n + k + p + seed) % len(libs)]
                    out.append(one('%s%d-t%d-p%d' % (nm, n, k, p), e, t, p, l))
    for n in range(3000 if F else 200):
        p = n % 6
        R = gen.Rand('bd%d-%d' % (seed, n), set('arith,ite,nonlin,agg,arr,partial,let'.split(',')), p=p)
        e = R.ints(2 + n % 2)
        out.append(one('r%d-%d' % (seed, n), e, T[n % len(T)], p, ['std', 'half', 'linear'][n % 3]))
    return out
