"""Linear library: the expression lists of the other corpora, compiled for MIP solvers."""
from .util import *
from . import c03, c04, c05, c06
import re as _re

DOM = ['var -3..5: e; constraint e in {-3,0,2,5}; constraint b <-> (e in {0,5}); constraint c -> e != 2', 'var {1,3,4,8}: e; constraint b <-> e = 3; constraint c <-> e >= 4; constraint e != x', 'var {1,3,4,8}: e; constraint b -> e = x; constraint w[1 + (e mod 4)] > 0', 'var 0..6: e; constraint (e <= 1) xor (e >= 4); constraint b <-> e = 5; constraint e mod 2 = 1 \\/ c',
       'constraint x != 0 /\\ x != 2; constraint b <-> x < 1; constraint c <-> x <= 1', 'constraint b <-> x = 1; constraint c <-> x = 2; constraint d <-> x = 1; constraint b \\/ c', 'constraint x in {0,2,3} \\/ b; constraint x in {1,2} \\/ c; constraint d <-> x = 2', 'constraint x + 1 = y; constraint b <-> x = 1; constraint c <-> y = 2', 'constraint y = 2*x - 1; constraint b <-> x in {1,2}; constraint c <-> y in {1,3}',
       'constraint x = y; constraint b <-> x <= 1; constraint c <-> y >= 3', 'constraint x - 2*y = 1; constraint y = 3 - z; constraint b <-> z = 2; constraint c -> x != 3', 'constraint b <-> x in S; constraint x != n; constraint c -> x > n', 'constraint -x = y; constraint b <-> x in {0,1,3}; constraint c <-> y in {-1,-2}',
       'var 0..1: e; constraint e = bool2int(b); constraint x*e = y; constraint e = 1 -> z = 1', 'constraint b*x + c*y = z', 'constraint b*c = d', 'constraint bool2int(b)*bool2int(c)*x <= y', 'constraint x*x + y*y <= z + 5', 'constraint x*y*z = 0 \\/ b', 'constraint max([x,y,z]) - min([x,y,z]) <= 2', 'constraint abs(x - y) + abs(y - z) <= 3', 'constraint all_different([x,y,z]); include "all_different.mzn"', 'constraint b -> all_different([x,y,z]); include "all_different.mzn"',
       'constraint sum([x = 1,y = 1,z = 1]) = 1', 'constraint xorall([b,c,d,x > 1])', 'constraint exists([b, not c, x > 1]); constraint forall([b -> x < 3, c -> y < 2])', 'constraint not exists([b /\\ c, x = y])', 'constraint if b then x = 1 elseif c then y = 1 else x = y endif', 'constraint [x,y,z][j] = [3,1,2][j]', 'constraint xs[j] + xs[j + 1] = 3', 'constraint m[1,j] = m[2,j] \\/ b', 'constraint a[j] = a[i]', 'constraint w[i] = x \\/ w[j] = y', 'var int: e = x div 2; constraint e = y mod 3', 'constraint pow(x,2) = y \\/ b', 'constraint x div y = z \\/ x mod y = 1', 'constraint (x > 1) + (y > 1) + (z > 1) >= 2',
       'constraint redundant_constraint(x + y > 0) /\\ b', 'constraint symmetry_breaking_constraint(x <= y); constraint b \\/ x > 1', 'constraint x + y > z <-> b; constraint x + y <= z - 1 <-> c', 'constraint 2*x - 3*y = z <-> b', 'constraint 2*x - 3*y != z', 'constraint x != y; constraint y != z \\/ b; constraint c <-> x != z', 'constraint b -> (c <-> x = y)', 'constraint (b <-> c) <-> (x < y)', 'constraint s = {v1 | v1 in 1..3 where v1 < x}', 'constraint card(s) = x /\\ (1 in s <-> b)', 'constraint s subset t \\/ b', 'constraint x in s; constraint y in s -> b', 'constraint sum(v1 in s)(v1) = x', 'constraint max(s) = x \\/ b', 'constraint o = x \\/ b; constraint occurs(o) -> c',
       'constraint alldifferent_except_0([x,y,z]); include "alldifferent_except_0.mzn"', 'constraint inverse([1 + bool2int(b),1 + bool2int(c)],[1 + bool2int(d),i]); include "inverse.mzn"', 'constraint cumulative([i,j],[1,2],[1,1],1); include "cumulative.mzn"', 'constraint cumulative([x,y],[2,max(0,z)],[1,1],1) \\/ b; include "cumulative.mzn"', 'constraint lex_less([x,y],[y,z]); include "lex_less.mzn"', 'constraint b <-> lex_lesseq([x,y],[y,z]); include "lex_lesseq.mzn"', 'constraint at_most(1,[x,y,z],1); include "at_most.mzn"', 'constraint global_cardinality([x,y,z],[1,2],[i,j]); include "global_cardinality.mzn"', 'constraint bin_packing(3,[i,j],[2,2]); include "bin_packing.mzn"', 'constraint circuit([i,j,1 + bool2int(b)]); include "circuit.mzn"',
       'constraint regular([j,1 + bool2int(b)],2,3,[|1,2,0|0,1,2|],1,{2}); include "regular.mzn"', 'constraint table([x,y],[|1,2|2,3|0,0|3,1|]); include "table.mzn"', 'constraint arg_max([x,y,z]) = j; include "arg_max.mzn"', 'constraint sort([x,y,z]) = [y,x,z]; include "sort.mzn"', 'constraint increasing([x,y,z]) \\/ b; include "increasing.mzn"', 'constraint count([x,y,z],1) = bool2int(b) + 1', 'constraint among(i,[x,y,z],{1,2}); include "among.mzn"', 'constraint maximum(x,[y,z,1]); include "maximum.mzn"', 'constraint value_precede(1,2,[i,j,x]); include "value_precede.mzn"', 'constraint knapsack([2,3],[1,4],[i,j],x,y); include "knapsack.mzn"', 'constraint disjunctive([i,j],[1,2]); include "disjunctive.mzn"', 'constraint diffn([i,j],[0,bool2int(b)],[1,2],[1,1]); include "diffn.mzn"']
# domains, big-M: exact large bounds
BIG = ['var 0..1000000: e; constraint b -> e <= 7; constraint not b -> e >= 999990; constraint e mod 10 = 3', 'var -1000000..1000000: e; constraint b <-> e > 5; constraint e in {-1000000,5,6,1000000}', 'var 0..100000: e; constraint e = 317*x + 5 \\/ b', 'var 0..50000: e; constraint e = x*y*100; constraint b <-> e >= 300', 'var -40000..40000: e; constraint max(e,x) = 3 \\/ b; constraint e < 4', 'var 0..3000: e; constraint if b then e = x else e = 3000 - x endif', 'var 0..100: e; constraint e = abs(7*x - 3*y)', 'var 0..200: e; constraint e div 7 = x; constraint e mod 7 = y']
FL = [[], [], [], ['-O2'], ['-O0'], ['-D', 'fMIPdomains=false'], ['--MIPDMaxIntvEE', '2'], ['--MIPDMaxDensEE', '1'], ['-D', 'fMIPdomAux=true'], ['-D', 'fXBZCuts01=true'], ['-D', 'QuadrInt=true'],
      ['-D', 'fMIPdomains=false;fIndConstr=true']]
RULE = 'expressions of the arithmetic, partiality, array and set corpora, domain-heavy multi-constraint models and global constraints compiled for the linear library (with MIP domain postprocessing, big-M and unary encodings, several option settings): the linear problem must have exactly the solutions of the model'


def cases(tier, seed):
    F = full(tier)
    out = []
    rng = random.Random('c09-%d' % seed)
    fl = FL
    def conf(lst, cap):
        ex = list(lst)
        if not F and len(ex) > cap:
            rng.shuffle(ex)
            ex = ex[:cap]
        return ex
    ok = lambda es: [e for e in es if isinstance(e, str)]
    for nm, es, n in (('a', ok(c03.EXPRS), 150), ('p', ok(c04.EXPRS), 70), ('r', ok(c05.EXPRS), 150), ('s', ok(c06.EXPRS), 60)):
        for id, src in gen.cross(nm, conf(es, n), MAINCTX, range(6), rng, limit=None if F else 2 * n):
            out.append(Case('%s-linear' % id, src, lib='linear', flags=rng.choice(fl)))
    for k, t in enumerate(DOM + BIG):
        for p in range(6) if F else rng.sample(range(6), 3):
            f = rng.choice(fl)
            if t in BIG and any('fMIPdomains=false' in v for v in f):
                f = []  # unary encodings of the large domains
            out.append(Case('d%d-p%d-linear' % (k, p), gen.model(t + ';', p), lib='linear', flags=f))
    for f in fl[4:] if F else rng.sample(fl[3:], 4):
        out += rand('q' + f[-1], 'arith,ite,nonlin,arr', 300 if F else 15, 900 + seed, lib='linear', flags=f)
    out += rand('q', 'arith,ite,nonlin', 2000 if F else 100, 910 + seed, lib='linear')
    out += multi('m', 'arith,ite', 2000 if F else 100, 920 + seed, lib='linear')
    out += fixed('k', 2000 if F else 120, 930 + seed, lib='linear')
    for k in range(3000 if F else 220):
        f = rng.choice(fl) if k % 2 else []
        out.append(Case('cl-%d-%d-linear' % (seed, k), gen.clique('%d-%d' % (seed, k), k), lib='linear', flags=f))
    return out
