from .util import *

EXPRS = [
    'x in s', 'not (x in s)', 'x in s <-> y in s', 'x in s -> y in t', 'x + y in s', 'x in s union t', 'x in s intersect t', 'x in s diff t', 'x in s symdiff t', '2 in s', '7 in s', 'x in s /\\ x in t', 'x in s \\/ x in t', 'x in s xor y in s',
    's subset t', 's superset t', 's = t', 's != t', 's < t', 's <= t', 's > t', 's >= t', 's subset {1,2}', '{1,2} subset s', 's superset {2}', 's = {}', 's != {}', '{} = s', 's = {1,2}', 's = 1..3', 's != 2..3', 's subset {}', '{} subset s', 's < {2}', '{1,3} <= s', 's >= 1..2', 's subset 1..2 \\/ s = t', 'not (s subset t)', 'not (s = t)', 'not (s < t)', 's subset s', 's = s', 's < s', 's <= s',
    's union t = u', 's intersect t = u', 's diff t = u', 's symdiff t = u', 's union t = {1,2,3}', 's intersect t = {}', 's diff t = {}', 's symdiff t = {2}', 's union t subset u', 's intersect t subset u', 'u subset s union t', 's union t != u', 's union {1} = t', 's diff {2,3} = t', '{1,2} diff s = t', 's intersect 1..2 = {1}', 's symdiff 1..2 = t', 's union t union u = 0..5', 's intersect t intersect u = {}', '(s union t) diff u = {2}', 's union (t intersect u) = {2,3}', 's union {} = t', 's intersect {} = t', '{} diff s = {}', 's diff {} = t',
    'card(s) = 2', 'card(s) = x', 'card(s) <= card(t)', 'card(s union t) = 3', 'card(s intersect t) = 1', 'card(s diff t) >= 2', 'card(s) + card(t) = 4', 'card(s) != 0', 'card(s) < 1', 'card(s)*card(t) = 2', 'card({x,y}) = 2', 'card({x,y,z}) = i', 'card({x,1}) = 1', 'card(s symdiff t) = x',
    '{x,y} = s', '{x} = s', '{x} subset s', '{x,2} = t', 's = {x,y,1}', '{x,y} subset t', '{x,y} = {y,z}', '{x,x} = {y}', '{x} = {y}', '{x,y} != {1,2}', 's = {v1 | v1 in 1..4 where v1 > n}', 's = {x | v1 in 1..2}', 's = {x + v1 | v1 in 0..1}', 's subset {x,y}',
    'if b then s else t endif = u', 'if b then s else {1} endif = t', 'if b then s else {} endif subset t', 'x in if b then s else t endif', 'if x in s then y else z endif = 1', 'if s = {} then b else c endif', 'if s subset t then x else y endif = 2', 'card(if b then s else t endif) = 2', 'if b then {1,2} else {2} endif = s', 'if b then s union t elseif c then t else {2} endif = u',
    'SS[j] = s', 's subset SS[j]', 'x in SS[j]', 'card(SS[j]) = x', 'sa[j mod 2 + 1] = s', 'x in sa[1]', 'sa[1] subset sa[2]', 'sa[1] intersect sa[2] = {}', 'sa[i] = s', 'x in sa[i]', '[s,t][j mod 2 + 1] = u', '[s,t,{1}][j] = u', '[s,{2,3}][x] = t', 'card(sa[i]) = 1', 'SS[j] union s = t', 'sa[j mod 2 + 1] != {}',
    'sum(v1 in s)(v1) = 3', 'sum(v1 in s)(1) = x', 'forall(v1 in s)(v1 > x)', 'exists(v1 in s)(v1 = x)', 'forall(v1 in s)(v1 in t)', 'exists(v1 in s)(v1 + 1 in s)', 'forall(v1, v2 in s)(v1 + v2 != x)', 'forall(v1 in s where v1 > 2)(v1 in t)', 'sum(v1 in s where v1 mod 2 = 0)(v1) = x', 'sum(v1 in s)(v1*x) = 4', 'count(v1 in s)(v1 > 1) = x', 'max([v1 | v1 in s] ++ [0]) = x', 'card({v1 | v1 in s where v1 > 1}) = 1', 'exists(v1 in s union t)(v1 = x)', 'forall(v1 in s intersect t)(v1 = x)',
    's != {} /\\ min(s) = x', 's != {} -> max(s) = x', 's != {} /\\ max(s) - min(s) = 1', 'max(s) = 2', 'min(s) >= x', 'min(s union {x}) = y', 'max(s union {1}) = x', 'min(s) < min(t)',
    'x in s -> s subset t', 's subset t <-> t subset s', '(s = t) xor b', 'b -> s = t', 's = t -> b', 'bool2int(x in s) + bool2int(y in s) = 1', 'sum(v1 in 1..3)(bool2int(v1 in s)) = 2', 'sum(v1 in 1..3)(bool2int(v1 in s)*v1) = x', 'forall(v1 in 1..3)(v1 in s <-> v1 in t)', 'exists([x in s,y in t,b])', 's union t = s', 's intersect t = s', 's diff t = s', 's symdiff s = {}', 's union s = t', 's intersect s = t', 's = t union u \\/ b', 'let { var set of 1..3: v1 = s intersect t } in card(v1) = 1', 'let { var set of 0..3: v1; constraint v1 subset s } in card(v1) = 2 /\\ v1 = t', 'array_union([s,t,u]) = {1,2,3}', 'array_intersect([s,t]) = u', 'array_union(sa) = 1..3', 'x in array_union(sa)', 'card(array_intersect([s,t])) = x', 'set2array({1,2})[j mod 2 + 1] = x',
    's in powerset', 'x in dom(y)', 'ub(s) = s', 'card(ub(s)) = x', 'lb(s) subset t', 'sum([card(s),card(t),x]) = 3', 'max(card(s),card(t)) = x', 's subset x..y', 'x..y = s', 'card(x..y) = 2', 'z in x..y', '2 in x..y', 's = x..y \\/ b', 'x..y subset 1..3', 'x..y = {}', 's intersect x..y = {}',
]
EXPRS = [e for e in EXPRS if 'powerset' not in e]
ITEMS = [
    'constraint s = t; constraint card(s) = 2; constraint x in t',
    'constraint s subset t; constraint t subset s; constraint b <-> s = t',
    'constraint s union t = u; constraint s intersect t = {}; constraint card(u) = x',
    'constraint x in s; constraint y in s; constraint x != y; constraint card(s) = 1 \\/ b',
    'constraint b <-> x in s; constraint c <-> x in t; constraint b xor c',
    'constraint s < t; constraint t < u',
    'constraint 1 in s; constraint not (2 in s); constraint b <-> 1 in s',
    'var set of 1..3: e = s intersect t; constraint card(e) = 2',
    'var set of int: e = s union t; constraint x in e',
    'array[1..3] of var set of 1..3: e; constraint forall(v1, v2 in 1..3 where v1 < v2)(e[v1] intersect e[v2] = {}); constraint array_union(array1d(e)) = 1..3; constraint card(e[1]) = x',
    'array[1..2] of var set of 1..3: e; constraint e[1] <= e[2]; constraint card(e[1]) = 2; constraint card(e[2]) <= 2',
    'var set of {1,3,5}: e; constraint x in e; constraint sum(v1 in e)(v1) = 6',
    'var set of -2..1: e; constraint -1 in e <-> b; constraint card(e) = 2; constraint min(e) = x',
    'var set of 5..7: e; constraint e subset {5,9}; constraint b <-> e = {}',
    'var set of 1..0: e; constraint card(e) = x',
    'predicate pq(var set of int: v1, var int: v2) = v2 in v1 /\\ card(v1) = 2; constraint pq(s,x); constraint b <-> pq(t,y)',
    'function var set of int: ff(var set of int: v1, var set of int: v2) = (v1 union v2) diff (v1 intersect v2); constraint ff(s,t) = u',
    'function var int: ff(var set of int: v1) = sum(v2 in v1)(v2); constraint ff(s) = ff(t); constraint s != t',
    'include "partition_set.mzn"; constraint partition_set([s,t],1..4)',
    'include "disjoint.mzn"; constraint disjoint(s,t); constraint b <-> disjoint(t,u)',
    'include "all_disjoint.mzn"; constraint all_disjoint([s,t,u])',
    'include "link_set_to_booleans.mzn"; constraint link_set_to_booleans(s,array1d(ub(s),[v1 = x | v1 in ub(s)]))',
    'include "int_set_channel.mzn"; array[1..3] of var 1..2: e; array[1..2] of var set of 1..3: e2; constraint int_set_channel(e,e2)',
    'include "sum_set.mzn"; constraint sum_set([1,2,3,4],[3,1,2,5],s,x)',
    'include "at_most1.mzn"; constraint at_most1([s,t,u])',
    'include "inverse_set.mzn"; array[1..2] of var set of 1..2: e; array[1..2] of var set of 1..2: e2; constraint inverse_set(e,e2)',
    'include "member.mzn"; constraint member(s,x) \\/ b',
    'include "increasing.mzn"; array[1..3] of var set of 1..2: e; constraint increasing(e)',
    'include "lex_less.mzn"; array[1..2] of var set of 1..2: e; array[1..2] of var set of 1..2: e2; constraint lex_less(e,e2)',
]
RULE = 'handwritten set-variable expressions in 23 contexts and set models, for the standard library (set variables kept), the nosets library (sets as Boolean arrays) and the linear library, plus seeded random set expressions'


def cases(tier, seed):
    F = full(tier)
    out = grid('e', EXPRS, ALLCTX, range(4), None if F else 3 * len(EXPRS), seed)
    out += grid('e', EXPRS, ALLCTX, range(4), None if F else 2 * len(EXPRS), seed + 5, lib='nosets')
    out += grid('e', EXPRS, ALLCTX, range(4), len(EXPRS) * (6 if F else 1), seed + 10, lib='linear')
    for l in ('std', 'nosets') + (('linear',) if F else ()):
        out += items('i', ITEMS, range(4) if F else (0, 1 + seed % 3), lib=l)
    out += rand('q', 'arith,set,ite,let', 3000 if F else 250, 80 + seed, depth=2)
    out += rand('q', 'arith,set,agg,comp', 3000 if F else 150, 90 + seed, depth=2, lib='nosets')
    return out
