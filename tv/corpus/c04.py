from .util import *

EXPRS = [
    'array2d(1..2,1..2,[1,2 div x,3,4])[j,k] >= 1', 'array2d(1..2,0..1,[y,x mod z,x,2])[i,bool2int(b)] = 1', '[|1,2 div x|3,4|][j,k] >= 1', 'array3d(1..2,1..1,1..2,[1,4 div y,3,x])[i,1,j] <= 2', 'array2d(1..2,1..2,[a[x],y,3,4])[1,k] > 0',
    'array1d(0..2,[x div y,2,a[i]])[k] = 1', '[x div y,2,a[i]][2] = 2', '[x div y,2,a[i]][j] = 2', 'm[x,y] = a[i]', 'm[i,j] = m[j,i]', 'sum(array2d(1..2,1..2,[1,2 div x,3,4])[j,..]) > 3' if False else 'm[i,0] = 1',
    'x div y = 1', 'x mod y = z', 'x div y != 1', 'not (x div y = 1)', 'x div y < z \\/ b', 'x div 0 = 1', 'x mod 0 = 1 \\/ b', '1 div y = 0', '6 div (y - 1) >= 2', 'x div y = x div y', 'x div y = z div y',
    'x div y + z div y = 2', 'x div y - x div y = 0', 'x*(y div z) = 2', '0*(x div y) = 0', 'bool2int(x div y > 0) = 1', 'bool2int(x div y > 0) <= bool2int(b)', 'b -> x div y = 1', 'y != 0 -> x div y = 1', 'y != 0 /\\ x div y = 1', 'y = 0 \\/ x div y = 1',
    '(x div y = 1) <-> b', '(x div y = 1) xor (x mod y = 0)', 'if y != 0 then x div y = 1 else b endif', 'if x div y = 1 then b else c endif', 'if b then x div y else z endif = 1', 'if b then x div y = 1 else c endif', 'if x div y > 0 then x else y endif = z',
    'if b then x div y elseif c then y div x else 1 div z endif = 1', 'if y > 0 then x div y elseif y < 0 then -(x div y) else 0 endif = z', 'x div (y div z) = 1', '(x div y) mod z = 0', 'abs(x div y) = 1', 'max(x div y, z) >= 2', 'min(x div y, x mod z) = 0', 'max([x div y, z, 1]) = 1',
    'sum([x div y, z]) = 1', 'sum(v1 in -1..1)(x div v1) = 2', 'exists(v1 in -1..1)(x div v1 = y)', 'forall(v1 in 0..1)(x div v1 = y)', 'exists(v1 in 1..2)(x div (y - v1) = 1)', 'forall(v1 in 1..2)(v1 = y \\/ x div (y - v1) = 1)', 'sum(v1 in 0..2)(bool2int(x div v1 = 1)) >= 1',
    'exists([x div y = 1, b])', 'forall([x div y = 1, b])', 'xorall([x div y = 1, b])', 'iffall([x div y = 1, b])', 'count([x div y, z], 1) = 1', 'count([x, z], x div y) = 1', 'x div y in {0,1}', 'not (x div y in {0,1})', 'x in {1} \\/ x div y in {2}',
    'a[x] = 1', 'a[x] != 1', 'not (a[x] = 1)', 'a[x] = a[y]', 'a[x + y] >= 1', 'a[a[x]] = 1', 'w[x] = y', 'w[x] != y', 'w[x] + w[y] = 3', 'w[w[x]] = 2', 'bb[x]', 'not bb[x]', 'bb[x] \\/ b', 'bb[x] <-> bb[y]', 'q[x]', 'not q[x]', 'q[x] -> b', 'b <-> q[x]', '[b,c][x]', '[x,y][z] = 1', '[1,2,4][x] = z',
    'm[x,y] = 1', 'm[x,1] >= y', 'not (m[x,y] = 1)', 'm[i,i] = 1', '[|1,2|3,4|][x,y] = z', 'if x in 1..3 then bb[x] else b endif', 'x in 1..3 -> bb[x]', 'exists(v1 in 1..2)(bb[x + v1])', 'forall(v1 in 1..2)(x + v1 > 3 \\/ bb[x + v1])', 'a[x div y] = 1', 'a[x] div a[y] = 1', 'sum(v1 in 1..2)(a[x + v1]) >= 2',
    'let { constraint x > 1 } in y = z', 'not (let { constraint x > 1 } in y = z)', '(let { constraint x > 1 } in y) = z', 'not ((let { constraint x > 1 } in y) = z)', 'b \\/ (let { constraint x > 1 } in y) = z', 'let { var int: v1 = x div y } in v1 = 1', 'let { var int: v1 = x div y } in b', 'not (let { var int: v1 = x div y } in b)',
    'let { var int: v1 = x div y } in v1 = 1 \\/ b', 'let { var 0..1: v1 = x } in v1 = y', 'not (let { var 0..1: v1 = x } in v1 = y)', 'b <-> (let { var 0..1: v1 = x } in v1 = y)', '(let { var 0..1: v1 = x } in v1 + y) > 1', 'let { var bool: v1 = x div y = 1 } in v1 \\/ b', 'let { var bool: v1 = x div y = 1 } in not v1',
    'let { var int: v1 = a[x]; constraint v1 > 1 } in v1 = y', 'exists(v1 in 1..2)(let { constraint x > v1 } in y = v1)', 'let { constraint x > 1; constraint y > 1 } in b', '(let { constraint x > 1 } in y) + (let { constraint z > 0 } in 1*x) = 4', 'let { constraint assert(true, "", x > 1) } in y > 1',
    'pow(x,-1) = 1', 'pow(0,y) = 1', 'pow(y,z) >= 1', 'pow(2,x) = 4', 'sum(v1 in s)(v1) = 3', 'min(s) = 1', 'max(s) = y', 'not (min(s) = 1)', 'b <-> max(s) = 2', 'min(s) = min(t)', 'min(s intersect t) = x', 'if s = {} then b else min(s) = x endif', 's != {} -> min(s) = x',
    'max([v1 | v1 in 1..2 where v1 > 7] ++ [x]) = y', 'max([v1 | v1 in 1..3 where v1 > 5]) = x', 'xs[1] = x div y', '[x div y, z][j] = 1', '[x div y, z][1] = 1', '[x, z][x div y] = 1', 'array1d(0..1,[x, y])[z] = 2', 'array2d(1..2,0..1,[x,y,z,1])[x,y] = 1',
    'card({x div y, z}) = 2', 'x in {y div z, 1}', 'x div y in s', 'not (x div y in s)', 'x div y in s union t', '(if b then s else t endif) = {x div y}', '{x div y} subset s', 'card(s) div card(t) = 1', 'x div card(s) = 1', 'SS[x] = s', 'x in SS[y]', 'not (x in SS[y])', 's subset SS[x]', 'sa[x] = s', 'y in sa[x]',
    'x div y = 1 /\\ y != 0', 'b /\\ (c \\/ x div y = 1)', 'b \\/ (c /\\ x div y = 1)', '(b -> x div y = 1) -> c', 'not (b -> x div y = 1)', 'not (not (x div y = 1))', 'not (b \\/ not (x div y = 1))', '(x div y = 1) = (x mod y = 0)', '(x div y = 1) < b', '(x div y = 1) -> (x div y = 1)', 'x div y > 0 \\/ x div y <= 0', 'x div y = 1 \\/ x div y = 2 \\/ y = 0',
    'bool2int(a[x] = 1) + bool2int(a[y] = 1) = 1', 'x = 1 div y', 'x < 1 div y', 'x != 1 div y', 'x + 1 div y <= 2', '2*(x div y) + 3*(y div x) = 5', '(x div y)*(y div x) = 1', 'trace("", x div y) = 1', 'occurs(o) /\\ deopt(o) = 1', 'not (occurs(o) /\\ deopt(o) = x)', 'b <-> (occurs(o) /\\ deopt(o) > 1)', 'occurs(o) /\\ deopt(o) + x = 2',
    'x = y div if b then x else z endif', 'if b then a[x] else a[y] endif = 1', 'if b then w[x] else 7 endif = z', 'if bb[x] then y = 1 else y = 2 endif', 'if b then bb[x] elseif c then bb[y] else bb[z] endif', 'if x div y = 1 then x div z = 1 else z div x = 1 endif', 'let { var int: v1 = if b then x div y else 0 endif } in v1 = 1 \\/ c',
]
ITEMS = [
    'function var int: ff(var int: v1, var int: v2) = v1 div v2; constraint ff(x,y) = 1 \\/ b',
    'function var int: ff(var int: v1) = let { constraint v1 > 0 } in v1; constraint ff(x) = 1 \\/ b; constraint c -> ff(y) = 2',
    'function var bool: ff(var int: v1) = let { constraint v1 > 0 } in b; constraint not ff(x); constraint c <-> ff(y)',
    'predicate pq(var int: v1, var int: v2) = v1 div v2 = 1; constraint not pq(x,y); constraint b <-> pq(y,z)',
    'function var int: ff(var int: v1) :: promise_total = let { var 0..10: v2; constraint v2 = abs(v1) } in v2; constraint ff(x) = ff(y)',
    'constraint x div y = 1; constraint b <-> x div y = 1',
    'constraint b <-> x div y = 1; constraint x div y = 1',
    'constraint b <-> x div y = 1; constraint c <-> x div y = 2; constraint not (b /\\ c)',
    'constraint b -> x div y = 1; constraint c -> x div y = 2',
    'constraint not (x div y = 1); constraint b <-> x div y >= 1',
    'constraint b <-> bb[x]; constraint bb[x] \\/ bb[y]',
    'var int: e = x div y; constraint b \\/ e = 1',
    'var int: e = a[x]; constraint e = 1 \\/ b',
    'var -1..1: e = x div y; constraint b \\/ e = 1',
    'function var int: ff(var -1..2: v1) = v1 + 1; constraint b \\/ ff(x) = 1',
    'function var -1..2: ff(var int: v1) = v1 + 1; constraint b \\/ ff(x) = 1',
    'constraint b \\/ x div y = 1; constraint c \\/ x div y = 1; constraint b -> not c',
    'array[1..3] of var int: e = [x div y, z, x]; constraint b \\/ e[2] = 1',
    'array[1..2] of var int: e = [x div y, z]; constraint b \\/ e[1] = 1',
    'constraint b <-> exists(v1 in 0..2)(x div v1 > y); constraint c <-> forall(v1 in 0..2)(x div v1 > y)',
    'constraint y = 0; constraint b <-> x div y = 1; constraint c \\/ not (x mod y = 0)',
    'constraint y != 0; constraint b <-> x div y = 1',
    'constraint x div y = 1 \\/ b; constraint not b; constraint c <-> x div y > 0',
    'constraint if b then x div y = 1 else y div x = 1 endif; constraint if c then x div y = 2 else true endif',
    'predicate pq(var int: v1) = let { var int: v2 = 6 div v1; var int: v3 = v2 div v1 } in v3 >= 1; constraint pq(x) <-> b; constraint not pq(y)',
]
RULE = 'handwritten partial expressions (division, array access, lets, pow, min/max of sets, partial functions) in 23 contexts, plus seeded random expressions with partial operations'


def cases(tier, seed):
    out = grid('e', EXPRS, ALLCTX, range(6), None if full(tier) else 5 * len(EXPRS), seed)
    out += items('i', ITEMS, range(6) if full(tier) else (0, 1 + seed % 5))
    out += grid('e', EXPRS, ALLCTX, range(6), len(EXPRS) * (6 if full(tier) else 1), seed + 10, lib='linear')
    out += rand('q', 'arith,nonlin,partial,ite,let,arr', 6000 if full(tier) else 500, 20 + seed, depth=2)
    out += rand('r', 'arith,partial,arr2,agg', 4000 if full(tier) else 400, 90 + seed, depth=2)
    out += rand('q', 'arith,partial,ite,arr,agg', 4000 if full(tier) else 250, 30 + seed, depth=3)
    return out
