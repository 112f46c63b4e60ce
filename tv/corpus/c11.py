"""Objective and solve item: the flat objective has the value of the model's objective."""
from .util import *
import re

OBJ = [
    # variables, constants, linear forms, signs
    'x', '-x', 'x + y', 'x - y', '2*x - 3*y + 1', 'x + x', 'x - x', '3', 'n', '0*x', 'x + n', '-(x - y)', 'x*2 + y*2', '1 - x', '-x - y - z',
    # nonlinear, functions
    'x*y', 'x*x', 'abs(x)', 'abs(x - y)', '-abs(x)', 'max(x,y)', 'min(x,y)', '-max(x,y)', 'max([x,y,z])', 'min([x,y,z]) + max([x,y,z])', 'x div 2', 'x mod 3', '-(x div 2)', 'pow(x,2)', 'max(x,3)', 'min(x,-1)', 'abs(x) - abs(y)', 'x*y - z', 'max(x,y) - min(x,y)',
    # Booleans and sums
    'bool2int(b)', 'b', 'bool2int(x < y)', 'x < y', 'bool2int(b) + bool2int(c) + bool2int(d)', 'sum([b,c,d])', 'sum(bb)', 'sum(v1 in 1..3)(v1*bool2int(bb[v1]))', 'count([x,y,z],1)', 'b \\/ c', 'b /\\ x < 2', 'not b', 'bool2int(b \\/ x = y) - bool2int(c /\\ d)',
    'sum(v1 in index_set(a))(a[v1])', 'sum(a) - max(a)', 'sum(v1 in index_set(a) where v1 != 1)(v1*a[v1])', 'max(v1 in 1..3)(v1*bool2int(bb[v1]))', 'sum(v1 in 1..3)(bool2int(v1 = x))', 'sum([x | v1 in 1..3])',
    # arrays and partial expressions
    'a[j]', 'a[x]', 'w[j]', 'w[x]', 'w[i] + x', 'x div y', 'x mod y', '-(x div y)', 'x div y + z', '[x,y,z][j]', '[3,1,2][i]', 'm[1,x]', 'a[j] - w[j]', 'x div (y - z)', 'a[w[j]]', 'max([x div y, z])', 'min([a[v1] | v1 in S])', 'max([x | v1 in 1..2 where v1 < y])',
    # conditionals and lets
    'if b then x else y endif', 'if x < y then x else -y endif', 'if b then x elseif c then y else 2 endif', 'if b then 0 else x endif', 'let { var int: v1 = x + y } in v1*2', 'let { var int: v1; constraint v1 = x - y } in v1', 'let { var 0..3: v1; constraint v1 > x } in v1 + y',
    'let { constraint b } in x', 'let { constraint x < y } in x + y', 'if x = 0 then 5 else y div x endif', 'bool2int(let { constraint x > 1 } in b)', 'let { var int: v1 = x*y; var int: v2 = v1 - z } in v2 + v1',
    # sets, optional values
    'card(s)', 'card(s union t)', 'max(s)', 'min(s) + max(t)', 'sum(s)', 'sum(v1 in s)(v1)', 'card({v1 | v1 in 1..3 where v1 < x})', 'bool2int(occurs(o))', 'sum([o,p])', 'max([o,p,1])', 'if occurs(o) then deopt(o) else 7 endif',
    # functions
    'ff(x)', 'ff(x) - ff(y)', 'gg(x,y)', 'hh(x)',
]
CON = ['', 'constraint x < y;', 'constraint b -> x > 0; constraint c -> y < 2; constraint not (b /\\ c);', 'constraint x = y;', 'constraint x + y + z = 3;', 'constraint x = 2;', 'constraint a[j] = x;', 'constraint x*y >= 0 \\/ b;', 'constraint all_different([x,y,z]); include "all_different.mzn";', 'constraint b <-> x > y; constraint c <-> y > z;', 'constraint j = x;', 'constraint s subset t \\/ b;']
POST = ' function var int: ff(var int: v7) = if v7 > 0 then v7 else 1 - 2*v7 endif; function var int: gg(var int: v7, var int: v8) = let { var int: v9 = v7 - v8; constraint v9 != 1 } in abs(v9); function var int: hh(var int: v7) :: promise_total = let { var -3..9: v9; constraint v9 = v7 + 1 } in v9;'
TXT = [
    # objective variables declared and used in several ways
    'var -5..5: x; var int: obj = x*x - 2*x; solve minimize obj;', 'var -5..5: x; var 0..3: obj; constraint obj >= x; constraint x >= 1; solve minimize obj;', 'var 0..5: x; var 0..5: obj = x; constraint x != 0; solve minimize obj;',
    'var 0..5: x; var 2..5: obj = x + 1; solve maximize obj;', 'var 0..5: x; var int: obj; constraint obj = max(x,3); solve maximize obj;', 'var 0..5: x; var -3..3: y; var int: obj = x + y; constraint obj != 3; solve :: int_search([x,y],input_order,indomain_min) minimize obj;',
    'var 0..5: x; var -3..3: y; solve minimize let { var 0..9: v; constraint v >= x + y } in v;', 'array[1..3] of var 0..4: a; var int: obj = sum(a); constraint a[1] > a[2]; solve maximize obj - 2*a[3];', 'enum E = {A,B,C}; var E: e; var 0..2: x; constraint e = B -> x = 2; solve minimize enum2int(e) - x;',
    'array[1..3] of var 0..4: a; var 1..3: i; solve maximize a[i] - a[1];', 'var bool: b; var 0..3: x; var int: o1 = if b then x else 0 - x endif; var int: o2 = o1 + x; constraint o2 != 4; solve maximize o2;', 'tuple(var 0..3, var -1..2): t; constraint t.1 != t.2; solve minimize t.1 - t.2;', 'record(var 0..3: a, var -1..2: b): t; solve maximize t.a + 2*t.b;',
    'var 3..3: x; solve minimize x;', 'var 0..3: x; var 0..3: y; constraint x = y; solve maximize x + y;', 'var 0..3: x; var 0..3: y; constraint x + y = 3; solve maximize x - y;', 'var 0..3: x; var -3..0: y; constraint x = -y; solve minimize y;', 'var -2..2: x; var 0..4: y = x*x; var 0..4: z = abs(y - 1); solve minimize z - x;',
    'var 0..10: x; var 0..10: y; constraint 2*x + 3*y <= 12; constraint x - y >= -2; solve maximize 3*x + 5*y;', 'array[1..4] of var bool: p; array[1..4] of int: w = [3,5,2,7]; constraint sum(i in 1..4)(w[i]*p[i]) <= 9; solve maximize sum(i in 1..4)((w[i] + 1)*p[i]);', 'var 0..3: x; var 0..3: y; var int: mk = max([x + 2, y + 3]); constraint x >= y + 1 \\/ y >= x + 2; solve minimize mk;',
    'var 0..3: x; function var int: cost(var int: v) = if v >= 2 then 10 - v else v endif; solve maximize cost(x);', 'var 1..5: x; solve minimize x where_not_keyword; int: where_not_keyword2 = 1;' if False else 'var 1..5: x; constraint x != 1; solve satisfy;', 'var -5..5: x; solve maximize -x;', 'var -5..5: x; solve minimize -2*x + 3;',
    'var 0.0..4.0: f; var 0..3: x; constraint f <= int2float(x) + 0.5; solve maximize f - 0.5*int2float(x);', 'var -1.0..4.0: f; var -2.0..3.0: g; constraint f + g <= 4.5; solve maximize 2.0*f + g;', 'var -1.0..4.0: f; solve minimize abs(f - 1.5);', 'var -1.0..4.0: f; var bool: b; solve maximize if b then f else 0.25 endif;', 'var -1.0..4.0: f; var 0..2: x; solve minimize max(f,int2float(x));',
]
RULE = 'objective expressions (linear, nonlinear, partial, array, conditional, set, optional, float) minimised and maximised under several constraint sets, standard and linear library and optimisation levels: every flat solution is at most as good as the model solution it stands for, and every model solution is reachable with exactly its objective value; the solve item keeps its kind'


def cases(tier, seed):
    F = full(tier)
    out = []
    rng = random.Random('c11-%d' % seed)
    for k, e in enumerate(OBJ):
        post = POST if re.search(r'\b(ff|gg|hh)\(', e) else ''
        combos = [(g, c, p) for g in ('minimize', 'maximize') for c in range(len(CON)) for p in range(6)]
        rng.shuffle(combos)
        for q, (g, c, p) in enumerate(combos[:60 if F else 6]):
            for lib in ('std', 'linear') if F else (['std', 'std', 'linear', 'std', 'linear', 'nosets'][q],):
                fl = rng.choice([[], [], ['-O2'], ['-O0'], ['-O3']])
                out.append(Case('o%d-%s-c%d-p%d-%s%s' % (k, g[:3], c, p, lib, ''.join(fl)), gen.model(CON[c], p, post=post, solve='solve %s %s;' % (g, e)), lib=lib, flags=fl))
    for k, t in enumerate(TXT):
        for lib in ('std', 'linear'):
            for fl in ([], ['-O2'], ['-O3']) if F else ([],):
                fl0 = 'float' if '.0' in t else ''
                out.append(Case('t%d-%s%s' % (k, lib, ''.join(fl)), t, lib=lib, flags=fl, **({'mode': 'int'} if fl0 else {})))
    for i in range(1500 if F else 150):
        R = gen.Rand('c11-%d-%d' % (seed, i), {'arith', 'partial', 'nonlin', 'ite', 'let', 'arr', 'agg', 'comp'}, p=i % 6)
        e, b = R.ints(2 + i % 2), R.bools(1)
        out.append(Case('r%d-%s' % (i, ['std', 'linear'][i % 2]), gen.model('constraint %s;' % b if i % 3 else '', i % 6, solve='solve %s %s;' % (['minimize', 'maximize'][i % 2], e)), lib=['std', 'linear'][(i // 2) % 2], refuse='result of evaluation is undefined'))
    return out
