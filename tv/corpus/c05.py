from .util import *

EXPRS = [
    # fixed and variable access
    'a[j] = 1', 'a[n] = 1', 'a[min(index_set(a))] < a[max(index_set(a))]', 'bb[j]', 'bb[2] \\/ bb[3]', 'q[j]', 'w[j] = y', 'w[j + 1] < w[j]', 'w[i mod 4 + 1] = x', 'm[1,i mod 3] = 1', 'm[j mod 2 + 1,i mod 3] >= 1', 'm[j mod 2 + 1,2] = m[1,0]',
    '[x,y,z][j] = 1', '[x,y,z][j] = [z,x,y][4 - j]', '[|x,y|z,1|][j mod 2 + 1,2] = 1', '[[x,1,y][j],z][1] = 2', '[1,1,1][j] = x', '[b,c,x < y][j]', '[x < y,y < z,true][j] -> b', '[i,j,k][[3,1,2][j]] = 2', '[x | v1 in 1..3][j] = y', '[x + v1 | v1 in 1..3][j] = y', '[v1*v1 | v1 in 0..3][j] = x',
    'element(j,[x,y,z],2)', 'element(j,[3,1,2],x)', 'element(x,[b,c,d],true)', '[2,4,8,16][j] + [1,0,1,0][j] = x', 'a[j] = a[j]', 'a[j] != a[4 - j] \\/ b', 'array1d(0..2,[x,y,z])[j - 1] = 1', 'array1d(-1..1,[b,c,d])[j - 2]',
    # slices and reshaping
    'sum(m[1,..]) = 2', 'sum(m[..,1]) = 1', 'm[1,..] = m[2,..]', 'm[1,..] != m[2,..]', 'forall(v1 in 1..2)(sum(m[v1,..]) <= 2)', 'max(m[..,0]) = 1', 'a[2..2] = [x] \\/ b', '[x,y,z,1][2..3] = [1,z]', 'sum([x,y,z,1][2..]) = 2', 'sum([x,y,z][..2]) = 1', 'array1d(m) = [x,y,z,x,y,z]', 'array2d(1..3,1..2,array1d(m))[j,1] = 1', 'array2d(0..1,0..1,[x,y,z,1])[1,0] = 2',
    'sum(row(m,1)) = 1', 'sum(col(m,2)) = 1', 'sum(array1d(0..2,a)) = 3', 'length(a) = x', 'card(index_set(m) union {4}) = x', 'max(index_set_2of2(m)) = x', 'reverse([x,y,z])[j] = 1', 'a ++ [x] = [1,2,3,y]', 'sum(a ++ [x,y]) = 3', '[x,y] ++ [] = [y,x]', 'concat([[x,y],[z]]) = [1,2,y]', '[x,y,z] = [y,z,x]', '[x,y,z] != [y,z,1]', '[x,y] < [y,z]', '[x,y] <= [y,z]', '[x,y,z] > [1,2,1]', '[x,y] >= [y,x,1]', '[] < [x]', '[b,c] < [c,d]', 'a = [1,2,x]', 'a != [x,y,1]',
    # comprehensions
    'sum(v1 in 1..3)(v1*x) = 6', 'sum(v1 in 1..3 where v1 mod 2 = 1)(bool2int(x = v1)) = 1', 'forall(v1 in 1..3)(x != v1 \\/ y > v1)', 'exists(v1 in 1..3)(x = v1 /\\ y = v1 + 1)', 'forall(v1, v2 in 1..2)(v1 = v2 \\/ m[v1,0] != m[v2,0])', 'forall(v1, v2 in 1..3 where v1 < v2)([x,y,z][v1] < [x,y,z][v2])', 'exists(v1 in 1..2, v2 in 0..2)(m[v1,v2] = 1)', 'sum(v1 in 1..2, v2 in v1..3)(v2*x - v1*y) = 4',
    'forall(v1 in 1..0)(x < y)', 'exists(v1 in 1..0)(x < y)', 'sum(v1 in {})(x) = y', 'sum([v1 | v1 in 1..4 where v1 > n]) = x', 'sum(v1 in a)(v1) = 4', 'forall(v1 in a)(v1 > 0)', 'exists(v1 in a)(v1 = x)', 'sum([v1*v2 | v1 in a, v2 in [1,2]]) = 6', 'forall([v1 != x | v1 in a])', 'max([v1 | v1 in a]) = x', 'sum(v1 in index_set(a))(a[v1]*w[3]) = x', 'forall(v1 in 1..2)(let { var int: v2 = x*v1 } in v2 != y)', 'sum(v1 in S)(v1) = x', 'exists(v1 in S)(x = v1)', 'forall(v1 in S)(x != v1)', 'x in {v1 + 1 | v1 in S}', 'x in {v1*v2 | v1,v2 in 1..2}', 'x in {2*v1 | v1 in -1..2 where v1 != 1}',
    'sum(v1 in 1..3 where bb[v1])(v1) = x', 'forall(v1 in 1..3 where bb[v1])(x > v1)', 'exists(v1 in 1..3 where bb[v1])(x = v1)', 'sum([1 | v1 in 1..3 where x > v1]) = y', 'sum([v1 | v1 in 1..3 where x > v1 /\\ b]) = y', 'forall(v1 in 1..3 where x > v1)(bb[v1])', 'exists(v1 in 1..3 where v1 > 1 /\\ x > v1)(y = v1)', 'count([v1 | v1 in a], x) = 1', 'count(v1 in a)(v1 > 1) = x', 'count(v1 in 1..3 where v1 != 2)(bb[v1]) = 1', 'count(bb) = x', 'sum([bool2int(v1) | v1 in bb]) = x', 'sum(v1 in 1..3)(if bb[v1] then v1 else 0 endif) = x', 'sum(v1 in 1..3)(v1 = x) = 1', 'forall(v1 in 1..3, v2 = x + v1)(v2 != y)', 'sum(v1 in 1..3, v2 = v1*v1 where v2 > 1)(v2*x) = 13',
    # aggregates
    'sum([x,y,z]) = 3', 'sum(a) = x', 'sum([]) = x', 'sum([x]) = y', 'sum([x,x,x]) = 6', 'sum([1,2,x]) <= 4', 'product([x,y,z]) = 2', 'product(a) = x', 'product([]) = x', 'product([x,2,y]) = 4', 'product([x,0,y]) = z', 'min(a) = x', 'max(a) = x', 'min([x,y,z]) = 1', 'max([x,y,z]) <= 2', 'max([x]) = 1', 'max([x,x]) = y', 'min([x,y,1]) = z', 'max([x,y,-2]) != z', 'max(m) = 2', 'min(m) >= 0', 'max([b,c,d])', 'min([b,c,d]) <-> x < y', 'max([x,y]) - min([x,y]) = 2',
    'forall(bb)', 'exists(bb)', 'xorall(bb)', 'iffall(bb)', 'forall([])', 'exists([])', 'xorall([])', 'iffall([])', 'forall([b,c,x < y])', 'exists([b,c,x < y])', 'xorall([b,c,x < y])', 'iffall([b,c,x < y])', 'xorall([b,b,c])', 'exists([b,not b,c])', 'forall([b,true,c])', 'exists([b,true,c])', 'forall([b,false])', 'exists([b,false])', 'xorall([b,true])', 'xorall([b])', 'clause(bb,[b,c])', 'forall([b,exists([c,d])])', 'exists([b,forall([c,x < y]),d])', 'forall(bb) \\/ exists([b,c])', 'forall(bb) <-> b', 'sum(bb) = 2', 'sum([b,c,d]) + x = 3',
    'count(a,1) = x', 'count(a,x) = 1', 'count(a,x) >= y', 'count([x,y,z],1) = 2', 'count([x,y,z],x) = 2', 'count(bb,true) = x', 'count(bb,b) <= 1', 'count([1,2,1],x) = 2', 'count([1,2,x],1) = y', 'count([x,x,y],z) != 1', 'among([x,y,z],{1,2}) = i', 'at_least(1,[x,y,z],2)', 'exactly(1,a,x mod 3)', 'at_most(1,a,1)',
    'forall(v1 in index_set(a) where v1 > min(index_set(a)))(a[v1 - 1] <= a[v1])', 'a[arg_max(a)] = x', 'arg_min([x,y,z]) = 2', 'arg_max([b,c,true]) = j', 'sort([x,y,z])[2] = 1', 'sum(sort(a)) = x', 'x in array2set([1,2,4])', 'x in array2set(a)', 'has_element(x,[1,3])', 'has_element(x,a)', 'has_index(x,[1,3])', 'member(a,x)', 'member([x,y],2)', 'fold_demo(a) = x', 'show([1,2]) = "[1, 2]" /\\ b', 'enum2int(j) = x', 'arg_val([x,y,z],2) = j', 'dom_size(j) = x', 'index_set(a) = 1..3 \\/ b', 'length(a) = 3 \\/ c',
    'sum_set(1..4) = x',
]
BAD = ['fold_demo', 'sum_set', 'arg_val', 'enum2int', 'among', 'at_least', 'at_most', 'exactly', 'element(j', 'element(x', 'arg_m', 'sort(', 'has_element', 'has_index', 'member(', 'index_set_2of2(m)',
       'index_set(m) union', 'a[2..2] = [x]', '][2..3] = [1,z]', '[x,y] >= [y,x,1]', '[] < [x]', 'a = [1,2,x]', 'a != [x,y,1]', 'max([b', 'min([b', 'card(index_set', 'array2set(a)', 'dom_size']
EXPRS = [e for e in EXPRS if not any(x in e for x in BAD)]
ITEMS = [
    'array[1..3] of var 0..3: e = [x,y,z]; constraint sum(e) = 3; constraint b <-> e[j] = 1',
    'array[1..3] of var int: e = [x + v1 | v1 in 1..3]; constraint e[j] = 2',
    'array[0..2] of var 0..2: e; constraint forall(v1 in 0..2)(e[v1] = count(e,v1))',
    'array[1..2,1..2] of var 0..2: e; constraint forall(v1,v2 in 1..2)(e[v1,v2] = e[v2,v1]); constraint sum(e) = x',
    'array[1..2,1..2] of var bool: e = [|b,c|c,d|]; constraint e[j mod 2 + 1,1]; constraint xorall(array1d(e))',
    'array[1..2] of array[1..2] of int: e = [[1,2],[3,4]]; constraint e[1][j mod 2 + 1] = x',
    'array[int] of var int: e = a ++ [x]; constraint e[4] = 1 \\/ e[1] = 2; constraint length(e) = 4',
    'array[int] of int: e = [v1 | v1 in 1..5 where v1 mod 2 = 1]; constraint x = e[j]; constraint sum(e) >= x + y',
    'array[1..3] of var int: e; constraint forall(v1 in 1..3)(e[v1] = v1*x); constraint e[3] = y',
    'array[1..4] of var 0..2: e; constraint e[1] = e[2]; constraint e[2] = e[3]; constraint sum(e) = x',
    'array[1..3] of set of int: e = [1..2,{3},{}]; constraint x in e[j]; constraint card(e[j]) = 1 \\/ b',
    'set of int: e = {v1 | v1 in 1..5 where v1 != 3}; constraint x in e; constraint sum(v1 in e)(v1*y) = 12',
    'array[bool] of var 0..3: e = array1d(bool,[x,y]); constraint e[true] = 1',
    'constraint forall(v1 in 1..3)(bb[v1] <-> x >= v1); constraint sum(bb) = y',
    'constraint forall(v1 in 1..3)(if bb[v1] then x > v1 else x <= v1 endif)',
    'constraint exists(v1 in 1..3)(bb[v1] /\\ forall(v2 in 1..3 where v2 != v1)(not bb[v2]))',
    'constraint sum(v1 in 1..3)(bb[v1]*v1) = x; constraint b <-> exists(bb)',
    'constraint max(v1 in 1..3)(bb[v1]*v1) = x; constraint min(v1 in 1..3)(v1 + bb[v1]) = y',
    'array[1..3] of var bool: e; constraint forall(v1 in 1..3)(e[v1] = (x = v1)); constraint exists(e); constraint j = x',
    'predicate pq(array[int] of var int: e) = sum(e) = 3 /\\ e[min(index_set(e))] > 0; constraint pq([x,y]); constraint b <-> pq([y,z])',
    'function var int: ff(array[int] of var int: e) = sum(v1 in index_set(e))(v1*e[v1]); constraint ff([x,y]) = ff([z,1])',
    'function array[int] of var int: ff(array[int] of var int: e) = [v1 + 1 | v1 in e]; constraint ff([x,y,z])[j] = 2',
    'function array[int] of var int: ff(var int: e) = [e,e*2]; constraint sum(ff(x) ++ ff(y)) = 6',
    'array[1..2,1..3] of int: e = [|1,2,3|4,5,6|]; constraint e[j mod 2 + 1,j] = x + y; constraint sum(e[..,2]) >= z',
    'array[1..2,1..2,1..2] of var 0..1: e; constraint sum(e) = 2; constraint e[1,1,1] + e[2,2,2] = i - 1; constraint sum(e[1,..,..]) = 1',
    'constraint let { array[1..2] of var int: v1 = [x + y,x - y] } in v1[1]*v1[2] = 3',
    'constraint let { array[1..3] of var 0..2: v1; constraint sum(v1) = x } in v1[1] = v1[2] /\\ v1[3] = 1',
    'constraint a[1] = 1 \\/ a[2] = 1; constraint if b then a[1] else a[2] endif = x',
]
ITEMS = [e for e in ITEMS if 'of array' not in e]
RULE = 'handwritten array, comprehension and aggregate expressions in 23 contexts, array models, and seeded random expressions'


def cases(tier, seed):
    out = grid('e', EXPRS, ALLCTX, range(4), None if full(tier) else 4 * len(EXPRS), seed)
    out += items('i', ITEMS, range(6) if full(tier) else (0, 1 + seed % 5))
    out += grid('e', EXPRS, ALLCTX, range(4), len(EXPRS) * (6 if full(tier) else 1), seed + 10, lib='linear')
    out += rand('q', 'arith,ite,arr,agg,comp', 5000 if full(tier) else 400, 60 + seed, depth=2)
    out += rand('r', 'arith,ite,arr2,agg', 4000 if full(tier) else 400, 80 + seed, depth=2)
    out += rand('q', 'arith,arr,agg,comp,let', 4000 if full(tier) else 250, 70 + seed, depth=3)
    return out
