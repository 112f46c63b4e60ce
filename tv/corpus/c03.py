from .util import *

EXPRS = [
    # comparisons and linear forms
    'x < y', 'x <= y', 'x = y', 'x != y', 'x > y', 'x >= y', 'x < 2', 'x <= 2', 'x = 2', 'x != 2', '3 <= x', '3 < x',
    'x + y <= z', 'x + y = z', 'x + y != z', 'x - y < z', '2*x - 3*y <= z + 1', '2*x + 4*y = 6', '2*x + 4*y != 6', '2*x + 4*y = 7', '3*x - 3*y >= 4',
    'x + x = 4', 'x - x = z', '2*x = 2*y', '2*x != 5', '2*x <= 5', '-2*x <= 5', '-3*x >= 7', '0*x + y = 1', 'x + y + z = x + 2', '2*(x + y) - (x - y) = 3',
    '-(x - y) <= -(z)', 'x + 3 = 2 - y', 'x*2 + y*2 + z*2 <= 7', '1 = x + y', '7 - x - y >= z', 'x + 1 < y + 1', 'x + 1 = x', 'x <= x', 'x < x', 'x != x',
    # nonlinear
    'x*y = z', 'x*y <= 6', 'x*y != z', 'x*x = 4', 'x*x <= y', 'x*y + z = 3', 'x*y*z >= 2', 'x*(y + 1) = z', '(x + y)*(x - y) = z', 'pow(x,2) = 4', 'pow(x,3) <= z',
    'pow(2,i) = 4', 'pow(x,2) + pow(y,2) <= 9', 'abs(x) = 2', 'abs(x) <= y', 'abs(x - y) >= 2', 'abs(x) = abs(y)', 'abs(x*y) < 5', 'x div 2 = y', 'x mod 3 = 1',
    'x div -2 = y', 'x mod -2 = z', '(x + y) div 2 <= z', '(x + y) mod 4 = z', 'x div 3 + x mod 3 = y', '-x div 2 = 1', 'x mod 2 = y mod 2', '7 div j = 2', '-7 mod j = y',
    'min(x,y) = z', 'max(x,y) <= z', 'max(x,2) = 3', 'min(x,-1) = y', 'max(x + 1,y - 1) != z', 'min(x,max(y,z)) = 1', 'max(x,x) = y', 'max(min(x,2),-2) = y',
    # Booleans
    'b /\\ c', 'b \\/ c', 'b -> c', 'b <- c', 'b <-> c', 'b xor c', 'not b', 'b = c', 'b != c', 'b < c', 'b <= c', 'b > c', 'b >= c', 'not (b /\\ c)', 'not (b xor c)',
    'b /\\ x < y', 'b \\/ x < y', 'b -> x < y', 'x < y -> b', 'x < y <-> b', 'x < y xor b', 'x < y xor y < z', 'x < y <-> y < z', 'x < y -> y < z', 'not (x < y \\/ y = z)',
    'x < y /\\ y < z', '(x < y /\\ b) \\/ (y < z /\\ c)', '(x = 1 \\/ x = 2) /\\ (y = 1 \\/ y = 3)', 'x = 1 \\/ x = 3 \\/ x = -2', 'x = 1 /\\ x = 2', 'x < 2 \\/ x > 3',
    'b \\/ not b', 'b /\\ not b', 'b xor b', 'b -> b', 'b <-> not b', 'true xor b', 'false <-> b', 'b \\/ true', 'b /\\ false', 'bool2int(b) + bool2int(c) = 1',
    'bool2int(b) = x', 'bool2int(x < y) <= bool2int(b)', 'bool2int(b) + x = y', '2*bool2int(b) - 3*bool2int(c) >= x', 'b + c + d >= 2', 'b*x = y', 'b + x > 2', 'x = b', 'x*b + y*c <= 3',
    'clause([b,c],[d])', 'clause([b,x < y],[c,y < z])', 'clause([],[b])', 'clause([b],[])', 'clause([],[b,c])',
    # conditionals
    'if b then x < y else y < x endif', 'if x < y then b else c endif', 'if b then x else y endif = z', 'if x < y then x else y endif <= z', 'if b then 1 else 2 endif = x',
    'if b then x elseif c then y else z endif = 1', 'if b then 1 elseif x < y then x else 3 endif > z', 'if b then x < y elseif c then y < z else d endif', 'if true then x < y else b endif',
    'if b then true else x < y endif', 'if b then x < y else false endif', 'if b then x < y endif', 'if b /\\ c then x + y else x - y endif <= 1', 'if x = 1 then y elseif x = 2 then y + 1 elseif x = 3 then y*2 else 0 endif = z',
    'if b then x else x endif = y', 'if b then if c then x else y endif else z endif = 2', 'if if b then c else d endif then x else y endif = 1', 'x + if b then y else z endif >= 3', 'if b then c else d endif <-> x < y',
    # lets
    'let { var int: v1 = x + y } in v1 = z', 'let { var int: v1 = x*y } in v1 + v1 <= z', 'let { var bool: v1 = x < y } in v1 <-> b', 'let { var int: v1 = x - y; var int: v2 = v1 + z } in v2 = v1 + 1 \\/ b',
    'let { int: v1 = 3 } in x < v1', 'let { var int: v1 = abs(x); constraint v1 <= 2 } in v1 = y', 'let { var bool: v1 = b /\\ c } in (v1 \\/ x = y) /\\ (not v1 \\/ x != y)', '(let { var int: v1 = x + 1 } in v1) = y',
    'let { var int: v1 = if b then x else y endif } in v1 < z', 'let { var int: v1 = min(x,y); var int: v2 = max(x,y) } in v2 - v1 = z',
    # membership
    'x in 1..3', 'x in {0,2,5}', 'x in {}', 'x + y in {-1,1,4}', 'x in {3}', 'x*y in 0..4', 'not (x in {0,2})', 'x in 1..3 <-> y in {0,2}', 'x in -100..100', 'x - y in {-3,0,3}',
    'x in 0..2 union 4..5', 'x in 1..n', 'abs(x) in {1,3}', 'x mod 3 in {0,2}',
    # bigger combinations
    '(x < y) = (y < z)', '(x < y) < (y < z)', '(x < y) + (y < z) = 1', 'b -> (c -> (x < y))', '(b -> c) -> d', 'not (b -> (c /\\ d))', '(b <-> c) <-> d', '(b xor c) xor d', 'b <-> (c /\\ (d \\/ x < y))',
    'x < y /\\ (b -> x + y = 3) /\\ (c -> x - y = -1)', 'not (x < y /\\ not (y < z \\/ b))', '(x + y > 3) + (x - y < 1) + b = 2', 'x + y*z - x = 2', 'x = y /\\ y = z', 'x = y \\/ y = z', 'x = y -> y = z', 'x != y /\\ y != z /\\ x != z',
    'x = 3 <-> b', 'x >= 2 <-> b', 'x != 0 <-> (b \\/ c)', 'x = y + 1 <-> b', '2*x = y <-> b', 'x*y = 0 <-> (x = 0 \\/ y = 0)', 'x > y -> x > y', 'max(x,y) = x <-> x >= y', 'abs(x) > 1 <-> not (x in -1..1)',
]
ITEMS = [
    'constraint x = y; constraint y = z; constraint b <-> x < 3',
    'constraint x = y + 1; constraint z = y + x; constraint b -> z > 2',
    'constraint b = c; constraint c = not d; constraint x < 3 <-> b',
    'constraint b; constraint b -> x < y; constraint x < y -> y != z',
    'constraint not b; constraint b \\/ x = y; constraint x != 3',
    'var -5..5: e = x + y; constraint e > 2 \\/ b; constraint e*e = 4',
    'var int: e = x*y; constraint e < z',
    'var bool: e = x < y; constraint e \\/ b; constraint e -> c',
    'constraint x <= 2; constraint x >= 2; constraint x + y = z',
    'constraint x >= y; constraint y >= x; constraint b <-> x = y',
    'var 1..3: e; var 2..5: f2; constraint e = f2; constraint x + e = 3',
    'constraint x < 2 \\/ b; constraint not b; constraint 2*x - y = z',
    'predicate pq(var int: v1, var int: v2) = v1 < v2 \\/ v1 > v2 + 1; constraint pq(x,y); constraint b <-> pq(y,z)',
    'predicate pq(var int: v1) = v1 > 0; constraint pq(x) -> pq(y - x); constraint not pq(z)',
    'function var int: ff(var int: v1) = v1 + v1*v1; constraint ff(x) = ff(y)',
    'function var int: ff(var int: v1, var bool: v2) = if v2 then v1 else -v1 endif; constraint ff(x,b) + ff(y,c) = z',
    'var -30..30: e; constraint e = x*y - z; constraint e mod 3 = 1',
    'constraint b <-> (x = 1); constraint c <-> (x = 2); constraint b \\/ c',
    'constraint b <-> (x >= 1); constraint c <-> (x >= 2); constraint b xor c',
    'constraint (x = 1) + (x = 2) + (x = 3) = 1; constraint (y = 1) + (y = 2) >= 1',
    'var int: e; constraint e = x + y; constraint e >= 2; constraint e <= z + 1',
    'var int: e; constraint e in 1..4; constraint e*x = y',
    'constraint x != 1; constraint x != 2; constraint x <= 3; constraint b <-> x = 3',
    'constraint exists([x = 1, y = 1, z = 1]); constraint forall([x != 2, y != 2, b])',
    'var 0..1: e; constraint e = bool2int(b); constraint e + x = y',
    'var 0..1: e; constraint e = 1 <-> b; constraint e <= x',
    'constraint x = bool2int(b) /\\ y = bool2int(not b)',
    'constraint 3 = x; constraint y = x + z; constraint b = (y > 1)',
    'constraint x - 2*y = 0; constraint x + 2*y = 4',
    'constraint trace("t", x < y); constraint assert(true, "m", x <= z)',
]
# big numbers: rounding in floating point would show
BIGS = []
for _a, _b in ((3, 27021597764222981), (3, -27021597764222981), (-3, 27021597764222981), (-3, -27021597764222981), (7, 123456789012345678), (-5, 99999999999999999)):
    for _op in ('<=', '>=', '<', '>', '=', '!='):
        BIGS.append('var -100000000000000000..100000000000000000: x; var 0..10: y; constraint %d*x + y %s %d; constraint y = 1;' % (_a, _op, _b))
    BIGS.append('var -100000000000000000..100000000000000000: x; var bool: b; constraint b <-> %d*x <= %d;' % (_a, _b))
    BIGS.append('var -100000000000000000..100000000000000000: x; var -5..5: y; var bool: b; constraint b -> %d*x > %d + y; constraint y > 3;' % (_a, _b))
    BIGS.append('var -100000000000000000..100000000000000000: x; var -60..60: y; constraint %d*y = x + %d;' % (_a, _b))
    BIGS.append('var 0..9007199254740995: x; var int: y = %d*x + %d; constraint y mod 2 = 0;' % (_a, _b))
RULE = ('handwritten integer/Boolean expressions in 23 constraint contexts over 6 declaration profiles, multi-constraint models, and seeded '
        'random expressions over arithmetic, non-linear terms, conditionals, lets and Boolean arrays')


def cases(tier, seed):
    out = []
    out += grid('e', EXPRS, ALLCTX, range(6), None if full(tier) else 4 * len(EXPRS), seed)
    out += items('i', ITEMS, range(6) if full(tier) else (0, 1 + seed % 5))
    out += rand('q', 'arith,nonlin,ite,let', 8000 if full(tier) else 700, 40 + seed, depth=2)
    out += rand('q', 'arith,ite', 4000 if full(tier) else 300, 50 + seed, depth=3)
    out += multi('m', 'arith,ite', 8000 if full(tier) else 700, 60 + seed)
    from ..equiv import Case
    out += [Case('big-%d' % i, m) for i, m in enumerate(BIGS)]
    return out
