import random
from .util import *

# declarations placed before the constraint; they use only names that gen.model does not declare
PRES = [
    'enum E = {A,B,C}; var E: e1; var E: e2; array[E] of var 0..2: ae; array[1..3] of var E: ea;',
    'enum E = {A,B,C,D}; set of E: F = {A,C,D}; var F: e1; var E: e2; array[E] of var -1..2: ae; array[1..3] of var B..D: ea;',
    'enum G = {P,Q}; enum E = {Z0} ++ R(G) ++ {Z1}; var E: e1; var {Z0,Z1}: e2; array[E] of var 0..1: ae; array[1..3] of var R(G): ea;',
    'enum E = N(1..3); var E: e1; var E: e2; array[E] of var 0..2: ae; array[1..3] of var E: ea;',
    'enum E = N(0..1) ++ {A} ++ M(4..5); var E: e1; var E: e2; array[E] of var 0..2: ae; array[1..3] of var N(0..1): ea;',
    'enum E = {A}; var E: e1; var E: e2; array[E] of var 0..2: ae; array[1..3] of var E: ea;',
    'enum E = anon_enum(3); var E: e1; var E: e2; array[E] of var 0..2: ae; array[1..3] of var E: ea;',
]
LO = ['A', 'A', 'Z0', 'N(1)', 'N(0)', 'A', 'to_enum(E,1)']
HI = ['C', 'D', 'Z1', 'N(3)', 'M(5)', 'A', 'to_enum(E,3)']
MID = ['B', 'C', 'R(Q)', 'N(2)', 'A', 'A', 'to_enum(E,2)']
ENUM = [
    'e1 = e2', 'e1 != e2', 'e1 < e2', 'e1 <= e2', 'e1 > e2', 'e1 >= e2', 'e1 = LO', 'e1 != HI', 'e1 < MID', 'e1 <= MID', 'e1 > LO', 'MID >= e2', 'e1 in {LO,HI}', 'e1 in LO..MID', 'e1 in {}', 'e1 in E', 'not (e1 in MID..HI)', 'e1 in {e4 | e4 in E where e4 != MID}', 'e1 in E diff {MID}', 'e1 in {LO} union {HI}',
    'ae[e1] = 1', 'ae[e1] = ae[e2]', 'ae[e1] < ae[e2] \\/ b', 'ae[MID] = x', 'sum(ae) = x', 'sum(e4 in E)(ae[e4]) = x', 'sum(e4 in E where e4 != LO)(ae[e4]) = 1', 'forall(e4 in E)(ae[e4] > 0 -> e1 != e4)', 'exists(e4 in E)(ae[e4] = x /\\ e4 > e1)', 'forall(e4, e5 in E where e4 < e5)(ae[e4] <= ae[e5])', 'ea[j] = e1', 'ea[j] < MID', 'ea[1] = ea[2]', 'ae[ea[j]] = 1', 'ae[ea[1]] = x', 'max(ae) = x', 'max(ea) = e1', 'min(ea) < e2', 'max(e1,e2) = MID', 'min([e1,e2]) = LO', 'max([e1,MID]) != e2',
    'enum2int(e1) = x', 'enum2int(e1) + enum2int(e2) = 4', 'to_enum(E,x) = e1', 'to_enum(E,j) = e1', 'enum_next(E,e1) = e2', 'enum_prev(E,e1) = e2', 'enum_next(E,e1) = HI', 'enum_prev(E,e1) = LO', 'enum_next(E,e1) != HI', 'enum_prev(E,e1) > LO', 'enum_next(E,e1) = MID \\/ b', 'card(E) = x', 'e1 = to_enum(E,1) \\/ b', 'if b then e1 else e2 endif = MID', 'if e1 = LO then x elseif e1 = HI then y else 2 endif = 1', 'if e1 < e2 then e1 else MID endif != LO', 'let { var E: e6 = if b then e1 else MID endif } in e6 < e2', 'let { var LO..MID: e6 = e1 } in ae[e6] = 1', 'e1 = e2 <-> b', 'bool2int(e1 = LO) + bool2int(e2 = HI) = i', 'sum([e1 = e2, e1 = LO, e2 > MID]) = x', 'count(ea,e1) = x', 'count(e4 in ea)(e4 = LO) = x', 'sum(e4 in ea)(bool2int(e4 = e1)) >= 1', 'all_different([e1,e2])', 'all_different(ea)', 'ea = [e1,e2,MID]', '[e1,e2] = [LO,HI]', '[e1,e2] != [LO,HI]', '[e1,MID][k] = e2', 'array1d(E,[x | e4 in E])[e1] = y', '[ae[e4] | e4 in E][j] = 1', 'index_set(ae) = E /\\ b',
    'e1 = min(E)', 'e2 < max(E)', 'e1 in {e2,MID} \\/ b' if False else 'e1 in E', 'element(e1,ae) = 1' if False else 'ae[max(e1,e2)] = 1',
]
SETE = ['e1 in es', 'e1 in es /\\ e2 in es', 'card(es) = 2', 'es = {LO,HI}', 'es subset {LO,MID}', '{MID} subset es', 'es union {LO} = E', 'card(es intersect {LO,HI}) = 1', 'es = ft', 'es subset ft', 'e1 in es diff ft', 'sum(e4 in es)(ae[e4]) = x', 'exists(e4 in es)(e4 > e1)', 'forall(e4 in es)(ae[e4] = 1)', 'es != ft', 'es < ft', 'max(es) = e1', 'min(es) < e2', 'es = {e4 | e4 in E where ae[e4] = 1}', 'card({e4 | e4 in E where ae[e4] > 0}) = x', 'MID in es', 'es symdiff ft = {MID}', 'if b then es else ft endif = {LO}']
OPTE = ['oe = LO', 'oe != e1', 'occurs(oe)', 'absent(oe) \\/ deopt(oe) = e1', 'oe < MID', 'if occurs(oe) then deopt(oe) else e1 endif = MID', 'ae[deopt(oe)] = 1 \\/ absent(oe)' if False else 'occurs(oe) -> ae[MID] = 1', 'oe = e1 \\/ b', 'oe in {LO,HI}', 'max([oe,e1]) = MID']
# constructor enums
CTOR = ['R(P) = e1', 'e1 = R(Q) \\/ e1 = Z0', 'R^-1(e1) = P', 'R^-1(e1) < Q', 'e1 in R({P,Q})', 'e1 in R(G) /\\ R^-1(e1) = Q', 'R(g1) = e1', 'R(g1) < e1', 'R(if b then P else g1 endif) = e1', 'ae[R(g1)] = 1', 'e1 in {Z0} union R({g4 | g4 in G where g4 != P})', 'R^-1(e1) = g1', 'R^-1(ea[j]) = g1', 'not (R^-1(e1) = P)', 'e1 in R(gs)' if False else 'g1 in gs /\\ R(g1) = e1', 'card(R(G)) = x', 'forall(g4 in G)(ae[R(g4)] <= x)', 'e1 != Z0 -> ae[e1] = 1', 'R(P)..Z1 = {e4 | e4 in E where e4 > Z0} /\\ b']
CTOR2 = ['N(k) = e1', 'N(x) = e1', 'N^-1(e1) = x', 'N^-1(e1) > 0', 'e1 in N(0..1)', 'M(4) = e1', 'M(k) = e1', 'M^-1(e1) = 5', 'M^-1(e1) + x = 5', 'e1 < M(5)', 'ae[N(1)] = ae[M(4)]', 'ae[M(5)] = x', 'N^-1(ea[j]) = 1', 'e1 = A \\/ e1 in N({0})', 'sum(e4 in N(0..1))(ae[e4]) = x', 'not (M^-1(e1) = 4)', 'if e1 = A then 0 elseif e1 in N(0..1) then N^-1(e1) else M^-1(e1) endif = x', 'N(k) = M(4) \\/ b', 'ae[N(k)] = 1']
# tuples and records
TPRE = 'tuple(var 0..2,var bool): tu; tuple(var 0..2,var bool): tv; record(var 0..2: fa1,var bool: fb1): ru; record(var 0..2: fa1,var bool: fb1): rv; array[1..2] of tuple(var 0..1,var bool): ta; array[1..2] of record(var 0..1: fa1,var bool: fb1): ra; tuple(tuple(var 0..1,var 0..1),var bool): tn; tuple(int,set of int): tp = (2,{1,3}); array[1..3] of tuple(int,bool): tq = [(1,true),(0,false),(2,true)];'
LEXT = ['(x,y,i,1.5) < (z,j,k,0.5)', '(x,y,i,1.5) <= (z,j,k,1.5)', '(x,y,0.5) > (i,j,0.5)', '(x,0.5,y) < (i,0.5,j)', '(x,0.5,y) <= (i,0.75,j)', '(x,(y,1.5),i) < (j,(z,0.5),k)', '(1.5,x,y,b) <= (1.5,i,j,c)',
        '(x,y,b,1.5) < (i,j,c,2.5)', '(x,y,i,j) < (i,z,x,k)', '(b,c,x,d) <= (c,b,y,b)', '(fa1: x, fb1: y, fc1: 0.5) < (fa1: i, fb1: j, fc1: 0.25)', '(x,(y,z),(b,i)) < (i,(j,k),(c,x))', '(x,s,y) = (i,t,j)', '(x,y,i,0.5) != (z,j,k,0.5)',
        '(x,y,i,"a") = (z,j,k,"a")', '(x,y,z) >= (y,z,x)', '(x,y,z,2.0) >= (y,z,x,2.0)']
TUP = ['tu = tv', 'tu != tv', 'not (tu = tv)', 'tu < tv', 'tu <= tv', 'tu > tv', 'tu >= (1,b)', 'tu = (1,true)', 'tu != (x,b)', 'tu.1 = 1', 'tu.2', 'tu.1 + tv.1 = x', 'tu.2 -> tv.2', 'tu = (x,b)', '(x,y) = (1,2)', '(x,y) < (y,z)', '(x,b,y) = (y,c,1)', '(x,y) != (z,1)', 'ru = rv', 'ru != rv', 'ru.fa1 = 1', 'ru.fb1 \\/ rv.fb1', 'ru = (fa1: x, fb1: b)', 'ru = (fb1: c, fa1: 1)', 'not (ru = (fa1: x, fb1: b))', 'ru.fa1 < rv.fa1', 'ta[k].1 = 1', 'ta[1] = ta[2]', 'ta[1] != ta[2]', 'ta[1].1 + ta[2].1 = 1', 'ta[j].2', 'ta[j].1 = x', 'ra[j].fa1 = 1', 'ra[1] = ra[2]', 'ra[j].fb1 \\/ b', 'ra[j] = (fa1: 1, fb1: b)', 'sum(v1 in 1..2)(ta[v1].1) = x', 'forall(v1 in ta)(v1.1 = 1 -> v1.2)', 'exists(v1 in ra)(v1.fa1 = x /\\ v1.fb1)', 'tn.1.1 = 1', 'tn.1 = (0,1)', 'tn = ((1,x),b)', 'tn.1.1 < tn.1.2', 'tn.1 < (1,0)', 'tn.1 != (x,y)',
       'tp.1 = x', 'x in tp.2', 'tq[j].1 = x', 'tq[j].2', 'tq[j] = (1,true)', 'sum(v1 in tq where v1.2)(v1.1) = x', 'if b then tu else tv endif = (1,true)', '(if b then tu else tv endif).1 = 1', '(if b then ru else rv endif).fa1 = x', 'let { tuple(var int,var bool): v6 = (x,b) } in v6.1 = 1 /\\ v6.2', 'let { record(var int: fa1, var bool: fb1): v6 = (fa1: x + 1, fb1: c) } in v6.fa1 = 2 \\/ v6.fb1', 'let { any: v6 = (x,y,b) } in v6.1 < v6.2 \\/ v6.3', 'let { (var int: v6, var bool: v5) = tu } in v6 = 1' if False else 'tu.1 = 1 \\/ tv.2', '[(x,b),(y,c)][k] = tu', '[(x,b),(y,c)][j].1 = 1', '[(x,1),(y,2)][j].2 = z', 'tu in [(0,true),(2,false)]', 'tu = tv \\/ tu.1 = 1', 'tu.1 = 1 <-> tv.2', '(tu.1,tv.1) < (tv.1,tu.1)', '(fa1: x, fb1: y).fa1 = 1', 'tu ++ (x,) = (1,true,2)', '(tu ++ tv).3 = 1', '(ru ++ (fc1: x)).fc1 = 1', 'tq[j] in [(1,true),(2,false)]' if False else 'tq[2].1 = x', 'ta = [(1,b),(x,true)]', 'ta != [(1,b),(0,true)]', 'max([v1.1 | v1 in ta]) = x', '[v1.1 | v1 in ta] = [x,y]', '[v1.fb1 | v1 in ra][j]']
FPRE = '''function var int: f1(var int: v7) = v7 + 1; function var int: f2(var int: v7, int: v8) = if v8 = 0 then v7 else f2(f1(v7), v8 - 1) endif;
function int: f3(int: v8) = if v8 <= 1 then 1 else v8*f3(v8 - 1) endif; function var int: f4(var int: v7) = v7; function int: f4(int: v7) = v7; function var int: f4(var bool: v7) = if v7 then 3 else 0 endif;
function var int: f5(var int: v7) = let { var -9..9: v6 = v7 div 2; constraint v6 > -1 } in v6; predicate p1(var int: v7, var int: v8) = v7 < v8 /\\ v7 != 0; predicate p2(array[int] of var int: v7) = forall(v8 in index_set(v7))(v7[v8] > 0); test p3(int: v7) = v7 mod 2 = 1;
function tuple(var int,var int): f6(var int: v7) = (v7 + 1,v7*2); function record(var int: fa1,var bool: fb1): f7(var int: v7, var bool: v8) = (fa1: v7 - 1, fb1: not v8); function array[int] of var int: f8(var int: v7, int: v8) = [v7*v5 | v5 in 1..v8]; function set of int: f9(int: v8) = {v5 | v5 in 1..v8 where p3(v5)}; function var set of int: f10(var set of 1..4: v7) = v7 union {1};
function $T: f11($T: v7) = v7; function var $T: f11(var $T: v7) = v7; function any $T: f12(bool: v8, any $T: v7, any $T: v6) = if v8 then v7 else v6 endif; function var int: f13(array[$U] of var int: v7) = sum(array1d(v7)); function var int: f14(var opt int: v7, int: v8) = if occurs(v7) then deopt(v7) else v8 endif; predicate p4(var bool: v7) = v7 -> p1(1,2);
predicate p5(var int: v7, int: v8 = 2) = v7 = v8; function var int: f15(int: v8, var int: v7 = 3) = v8 + v7; function ann: an1(int: v7) = domain_propagation;'''
FPRE = FPRE.split(' function ann')[0]
FUN = ['f1(x) = 2', 'f1(f1(x)) = y', 'f2(x,2) = y', 'f2(x,0) = 1', 'f3(3) = x', 'f3(3)*x = 6', 'f4(x) = 1', 'f4(2) = x', 'f4(b) = x', 'f4(x) + f4(b) = 3', 'f5(x) = 1', 'f5(x) = f5(y)', 'f5(x) + f5(y) = 2', 'p1(x,y)', 'not p1(x,y)', 'p1(x,y) \\/ p1(y,x)', 'p1(x,y) <-> p1(y,z)', 'p2([x,y])', 'p2(a)', 'not p2([x,y,z])', 'exists(v1 in 1..3 where p3(v1))(x = v1)', 'p3(3) /\\ b', 'f6(x).1 = 2', 'f6(x).2 = y', 'f6(x) = f6(y)', 'f6(x).1 < f6(y).2', 'f7(x,b).fa1 = 1', 'f7(x,b).fb1', 'f8(x,3)[j] = 2', 'sum(f8(x,2)) = y', 'f8(x,2) = [y,z]', 'x in f9(4)', 'card(f9(5)) = x', 'card(f10(s)) = 2', 'x in f10(s)', 'f11(x) = 1', 'f11(b)', 'f11(2) = x', 'f12(true,x,y) = 1', 'f12(false,x,y) = 1', 'f13([x,y]) = 3', 'f13([|x,y|z,1|]) = 3', 'f14(o,2) = x', 'f14(x,2) = 1', 'p4(b)', 'p5(x)', 'p5(x,1)', 'not p5(x)', 'f15(1) = x', 'f15(1,x) = 2', 'if p1(x,y) then f1(x) else f5(y) endif = 2', 'f1(if b then x else y endif) = 2', 'let { var int: v6 = f5(x) } in f1(v6) = 2', 'x.f1() = 2' if False else 'f1(x) > f1(y)', 'forall(v1 in 1..2)(p1(x + v1,y))', 'sum(v1 in 1..2)(f2(x,v1)) = 5', 'f1(x)*f1(x) = 4', 'bool2int(p1(x,y)) + f1(x) = 2', 'f5(f5(x)) = 0', 'f13(f8(x,2)) = 3', 'f6(f6(x).1).2 = 6', 'f11(f11(x)) = f1(0)', 'p1(f1(x),f5(y)) \\/ c', 'not (f5(x) = 1) \\/ b', 'a[f1(x)] = 1', 'a[f5(j)] = 1 \\/ c']
NEWTYPE = [
    'type Tt = tuple(var 0..2,var bool); Tt: v1; Tt: v2; constraint v1 < v2; constraint b <-> v1.2', 'type Rr = record(0..2: q1, bool: q2); var Rr: v1; var Rr: v2; constraint v1.q1 > v2.q1 \\/ (v1 = v2); constraint b <-> v1.q2', 'type Num = var 0..3; Num: v1; array[1..2] of Num: v2; constraint v1 = v2[1] + v2[2]', 'type Ii = 0..3; var Ii: v1; array[Ii] of var 0..1: v2; constraint v2[v1] = 1; constraint sum(v2) = 2',
    'var tuple(0..2,bool): v1; var record(0..1: q1, 0..2: q2): v2; constraint v1.1 = v2.q1 + v2.q2; constraint b <-> v1.2', 'array[1..2] of var tuple(0..1,0..2): v1; constraint v1[1] < v1[2]; constraint v1[1].2 = 1 \\/ b', 'array[1..2] of var record(0..1: q1,0..2: q2): v1; constraint v1[j - 1].q1 = x \\/ b; constraint v1[1] != v1[2]', 'tuple(int,bool): v1 = (2,true); var 0..3: v2 = v1.1 + bool2int(v1.2) + bool2int(b)', 'array[1..2] of tuple(int,int): v1 = [(1,2),(3,0)]; constraint v1[j].1 = x; constraint v1[j].2 >= y', 'record(int: q1, array[1..2] of var 0..2: q2): v1 = (q1: 1, q2: [x,1]); constraint v1.q2[j] = v1.q1 \\/ b' if False else 'record(int: q1, set of int: q2): v1 = (q1: 1, q2: {0,2}); constraint x in v1.q2; constraint y >= v1.q1',
    'tuple(array[1..2] of var 0..1,var bool): v1; constraint sum(v1.1) = 1; constraint v1.1[1] = 1 <-> v1.2', 'record(tuple(var 0..1,var bool): q1, var 0..2: q2): v1; constraint v1.q1.1 = v1.q2; constraint b -> v1.q1.2', 'tuple(var set of 1..2, var 0..2): v1; constraint v1.2 in v1.1; constraint card(v1.1) = x', 'any: v1 = x + y; constraint v1 = 3', 'any: v1 = (x,b); constraint v1.1 = 1 \\/ v1.2', 'any: v1 = [x,y,z]; constraint v1[j] = 1', 'any: v1 = {1,3}; constraint x in v1',
    'enum E = {A,B,C}; enum G = {P,Q}; array[E,G] of var 0..1: v1; constraint forall(e4 in E)(sum(g4 in G)(v1[e4,g4]) = 1); constraint v1[B,P] = x', 'enum E = {A,B,C}; array[E] of E: v1 = [B,C,A]; var E: v2; var E: v3; constraint v1[v2] = v3; constraint v3 != A \\/ b', 'enum E = {A,B,C}; array[E] of set of E: v1 = [{A,B},{},{C}]; var E: v2; var E: v3; constraint v3 in v1[v2]', 'enum E = {A,B,C}; array[1..2] of E: v1 = [C,A]; var E: v2; constraint v2 = v1[1] \\/ v2 = v1[2]; constraint ae <-> v2 = C; var bool: ae', 'enum E; E = {A,B,C}; var E: v1; constraint v1 > A; constraint b <-> v1 = C', 'enum E = {A,B}; enum G = {P} ++ W(E); var G: v1; var E: v2; constraint W(v2) = v1 \\/ b; constraint c <-> v1 = P',
    'enum E = {A,B,C}; function var E: nx(var E: v7) = if v7 = C then A else enum_next(E,v7) endif; var E: v1; var E: v2; constraint nx(v1) = v2; constraint nx(v2) != A \\/ b', 'enum E = {A,B,C}; function int: rk(E: v7) = if v7 = A then 2 elseif v7 = B then 0 else 1 endif; var E: v1; constraint [rk(e4) | e4 in E][enum2int(v1)] = x', 'enum E = {A,B,C}; function var int: rk(var E: v7) = [2,0,1][enum2int(v7)]; var E: v1; var E: v2; constraint rk(v1) < rk(v2); constraint b <-> rk(v2) = 2',
    'enum E = {A,B,C}; array[1..2] of var set of E: v1; constraint v1[1] subset v1[2]; constraint card(v1[2]) = 2; constraint b <-> A in v1[1]', 'enum E = {A,B,C}; tuple(var E,var 0..2): v1; constraint v1 < (B,1); constraint b <-> v1.1 = A', 'enum E = {A,B,C}; record(var E: q1,var set of E: q2): v1; constraint v1.q1 in v1.q2; constraint card(v1.q2) <= 2', 'enum E = {A,B,C}; array[E] of tuple(var 0..1,var bool): v1; var E: v2; constraint v1[v2].1 = 1; constraint v1[v2].2 -> b', 'enum E = {A,B,C}; array[E] of var bool: v1; constraint sum(v1) = 1; constraint b <-> v1[B]', 'enum E = {A,B,C}; array[E,1..2] of var 0..1: v1; constraint sum(v1[B,..]) = x; constraint sum(v1[..,1]) = y; constraint sum(v1[A..B,1]) = 1', 'enum E = {A,B,C}; array[B..C] of var 0..2: v1; var E: v2; constraint v1[v2] = 1; constraint b <-> v2 = C',
    'function var int: fx(var int: v7) = let { var int: v6; constraint v6*v6 <= v7; constraint (v6 + 1)*(v6 + 1) > v7; constraint v6 >= 0; constraint v6 <= 3 } in v6; constraint fx(x) = y', 'function var int: fx(var 0..2: v7) = v7*2; constraint fx(x) = y; constraint b <-> fx(y) > 1', 'function var 0..2: fx(var int: v7) = v7*2; constraint fx(x) = y \\/ b', 'predicate px(var 0..2: v7, set of int: v8) = v7 in v8; constraint px(x,{1,3}) \\/ b', 'predicate px(array[1..2] of var int: v7) = v7[1] < v7[2]; constraint px([x,y]); constraint b <-> px([y,z])', 'function var int: fx(var int: v7) = v7 div y; constraint fx(x) = 1 \\/ b', 'function var bool: fx(var int: v7) = v7 div y = 1; constraint fx(x) \\/ b; constraint not fx(z) \\/ c', 'predicate px(var int: v7) = let { var 0..2: v6; constraint v6 > v7 } in v6 != y; constraint px(x)', 'predicate px(var int: v7) = exists(v6 in 0..2)(v6 > v7 /\\ v6 != y); constraint px(x) <-> b', 'function array[int] of var int: fx(array[int] of var int: v7) = [if v8 = 1 then v7[1] else v7[v8] - v7[v8 - 1] endif | v8 in index_set(v7)]; constraint fx([x,y,z])[j] = 1',
]
RULE = 'handwritten expressions over enumerations (plain, anonymous, constructor, subset, nested), tuples, records, type synonyms and user functions in up to 23 contexts, plus declaration items and seeded random expressions over enums, tuples and functions'


def cases(tier, seed):
    F = full(tier)
    rng = random.Random('c22-%s' % seed)
    out = []

    def add(name, pre, exprs, per, profs=range(4), lib='std'):
        for n, e in enumerate(exprs):
            if '$' in e:
                continue
            ctxs = list(ALLCTX if F else rng.sample(ALLCTX, per))
            if not F:
                ctxs[0] = 'root'
            for c in ctxs:
                p = rng.choice(list(profs))
                out.append(Case('%s-%d-%s-p%d-%s' % (name, n, c, p, lib), gen.model(gen.CTXD[c] % e, p, pre=pre), lib=lib))
    for k, pre in enumerate(PRES):
        sub = lambda e: e.replace('LO', LO[k]).replace('MID', MID[k]).replace('HI', HI[k])
        ee = [sub(e) for e in ENUM]
        if not F:
            ee = ee if k < 2 else rng.sample(ee, 40)
        inc = 'include "all_different.mzn"; '
        for lib in ('std', 'linear'):
            add('e%d' % k, inc + pre, ee if lib == 'std' else ee[k::7], 3 if lib == 'std' else 1, lib=lib)
            add('s%d' % k, pre + 'var set of E: es; var set of E: ft;', [sub(e) for e in SETE][(k if lib == 'linear' else 0)::(7 if lib == 'linear' else 2 if not F else 1)], 2 if lib == 'std' else 1, lib=lib)
        add('o%d' % k, pre + 'var opt E: oe;', [sub(e) for e in OPTE], 1)
    add('c', PRES[2] + 'var G: g1; var set of G: gs;', CTOR, 4)
    add('n', PRES[4], CTOR2, 4)
    for lib in ('std', 'linear'):
        add('t', TPRE, TUP, 5 if lib == 'std' else 1, lib=lib)
        add('l', '', LEXT, 8 if lib == 'std' else 2, lib=lib)
        add('f', FPRE, FUN, 5 if lib == 'std' else 1, lib=lib)
        out += items('i', NEWTYPE, range(4) if F else (0, 1 + seed % 3) if lib == 'std' else (seed % 4,), lib=lib)
    # random: Boolean combinations of two or three of the above
    for r in range(4000 if F else 400):
        q = random.Random('c22-%d-%d' % (seed, r))
        kind = q.randrange(4)
        if kind == 0:
            k = q.randrange(len(PRES))
            pre, pool = 'include "all_different.mzn"; ' + PRES[k] + 'var set of E: es; var set of E: ft; var opt E: oe;', [e.replace('LO', LO[k]).replace('MID', MID[k]).replace('HI', HI[k]) for e in q.sample(ENUM, 3) + q.sample(SETE, 1) + q.sample(OPTE, 1)]
        elif kind == 1:
            pre, pool = (PRES[2] + 'var G: g1; var set of G: gs;', CTOR) if q.random() < .5 else (PRES[4], CTOR2)
        elif kind == 2:
            pre, pool = TPRE, TUP
        else:
            pre, pool = FPRE, FUN
        a, b2, c2 = (q.choice(pool) for _ in range(3))
        t = q.choice(['(%s) -> (%s)', '(%s) \\/ not (%s)', '(%s) <-> (%s)', '(%s) xor (%s)', 'not ((%s) /\\ (%s))', 'if %s then %s else d endif', 'bool2int(%s) = bool2int(%s)']) % (a, b2)
        if q.random() < .3:
            t = '(%s) /\\ ((%s) \\/ d)' % (t, c2)
        out.append(Case('q-r%d-%d-std' % (seed, r), gen.model(gen.CTXD[q.choice(['root', 'root', 'neg', 'reif', 'imp', 'or'])] % t, r % 6, pre=pre)))
    return out
