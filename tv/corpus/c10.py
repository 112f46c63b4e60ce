from .util import *
from . import c03, c04, c05, c06, c23

# every way of compiling a model (library, flags)
CONF = [('std', ['-O0']), ('std', ['-O2']), ('std', ['-O3']), ('std', ['-O5']), ('std', ['-g']), ('std', ['--keep-paths']), ('std', ['-O2', '--keep-paths']), ('std', ['--no-chain-compression']), ('std', ['--only-range-domains']),
        ('half', ['-O0']), ('half', []), ('half', ['--two-pass']), ('half', ['--no-chain-compression']), ('half', ['--no-half-reifications']), ('half', ['-g']),
        ('nosets', ['-O0']), ('nosets', ['--two-pass']), ('nosets', ['-g']),
        ('linear', ['-O0']), ('linear', ['-O2']), ('linear', ['--only-range-domains']), ('linear', ['-D', 'fMIPdomains=false']), ('linear', ['--MIPDMaxIntvEE', '10']), ('linear', ['--MIPDMaxDensEE', '1'])]
MODELS = [
    'var int: e = x + y; constraint e > 2; constraint b -> e < 5', 'var bool: e = x < y; constraint e -> b; constraint not e -> c', 'constraint x = y; constraint y = z; constraint x + y + z > 1', 'constraint x < y; constraint y < z; constraint x > 0',
    'constraint b; constraint b -> c; constraint c -> d \\/ x > 2', 'constraint b <-> (x > 1); constraint b; constraint x != 3', 'constraint not b; constraint b \\/ c; constraint c <-> x = y', 'constraint x = 2; constraint a[j] = x; constraint j > 1',
    'constraint b -> x > 1; constraint c -> x > 1; constraint b \\/ c', 'constraint exists([b,c,d]); constraint b -> c; constraint c -> d; constraint d -> b', 'constraint x = y \\/ b; constraint b = false', 'constraint forall(v1 in 1..2)(x + v1 != y)',
    'constraint if b then x = 1 elseif c then x = 2 else x = 3 endif; constraint y = if b then x else z endif', 'constraint x*y = 4; constraint x >= y', 'constraint max([x,y,z]) = 3; constraint min([x,y,z]) = 1', 'constraint x div y = 1; constraint x mod y = 0 \\/ b',
    'constraint s subset t; constraint card(s) = 1; constraint x in s', 'constraint x = bool2int(b) + bool2int(c); constraint b -> c', 'constraint a[1 + bool2int(b)] = x; constraint a[x] = 1 \\/ c', 'constraint sum([b,c,d]) = 2; constraint b -> x = 1; constraint not b -> x = 2',
    'predicate pq(var int: v7) = v7 > 1 \\/ b; constraint pq(x) -> pq(y); constraint not pq(z)', 'function var int: fq(var int: v7) = let { var int: v8 = v7*2; constraint v8 < 6 } in v8; constraint fq(x) = y \\/ c; constraint b <-> (fq(z) = 4)',
    'constraint (b -> c) -> d; constraint (c xor d) <-> (x < 2)', 'constraint clause([b,c],[d]); constraint d; constraint b -> x > 2; constraint c -> x < 2', 'var int: e; constraint e = x; constraint e > 1; constraint e < 4', 'var 1..3: e; constraint e = x; constraint b <-> (e = 2)',
    'var int: e; constraint e = x*y; constraint e > 1', 'constraint x + y = 3; constraint x - y = 1 \\/ b', 'constraint x <= y /\\ y <= x; constraint z = x + 1 \\/ b', 'constraint x in {1,3}; constraint x != 1 \\/ b', 'constraint b <-> (x in {1,3}); constraint c <-> (x in 2..3); constraint b /\\ not c \\/ d',
    'include "all_different.mzn"; constraint all_different([x,y,z]); constraint b -> x < y', 'include "table.mzn"; constraint table([x,y],[|0,1|1,2|2,3|1,1|])', 'include "inverse.mzn"; array[1..3] of var 1..3: e; array[1..3] of var 1..3: e2; constraint inverse(e,e2); constraint e[1] = j', 'include "element.mzn"; constraint element(j, a2, x); array[1..3] of var 0..4: a2',
    'array[1..3] of var 0..3: e; constraint e = [x,y,z]; constraint sum(e) > 3', 'array[1..2] of var int: e = [x + y, x - y]; constraint e[1] > e[2]; constraint b -> e[j] = 2', 'var opt 1..3: e; constraint occurs(e) -> deopt(e) > x; constraint b <-> occurs(e)', 'constraint b = c; constraint c = d; constraint d = (x > y)', 'constraint b != c; constraint c != d; constraint b -> x > 1; constraint d -> x < 4',
    'var int: e = if b then x else y endif; constraint e > 1', 'constraint abs(x) = y; constraint b <-> (x < 0)', 'constraint x = -y; constraint y > 0 \\/ b', 'constraint 2*x = y + z; constraint b -> 3*x + 2*y <= 4', 'constraint false \\/ b; constraint true -> c; constraint x > 1 \\/ false', 'constraint x*0 = 0; constraint x - x = 0; constraint b \\/ x = x', 'constraint x > 100 \\/ b; constraint x < 100; constraint not (x > 50)',
]
ANN = ['constraint (x + y = 3) :: domain; constraint (x < y) :: bounds', 'constraint (b <-> (x = 2)) :: domain', 'var int: e :: is_defined_var; constraint e = x + y; constraint e != 3', 'constraint redundant_constraint(x + y < 100) /\\ x > 1', 'constraint symmetry_breaking_constraint(x <= y) \\/ b', 'constraint implied_constraint(x < 100); constraint b -> x > y']
RULE = 'models and random expressions compiled under every configuration (optimisation levels, two-pass, path pruning, range domains, half-reification on/off, std/half/linear/nosets libraries); each configuration must give exactly the model\'s solutions'


def cases(tier, seed):
    F = full(tier)
    out = []
    rng = random.Random('c10-%d' % seed)
    allm = MODELS + ANN
    for ci, (l, fl) in enumerate(CONF):
        ms = list(range(len(allm)))
        if not F:
            rng.shuffle(ms)
            ms = ms[:34]
        for i in ms:
            p = (i + ci + seed) % 4
            out.append(Case('m%d-p%d-%s-%s' % (i, p, l, ''.join(fl)), gen.model(allm[i] + ';', p), lib=l, flags=fl))
        feats = ['arith,ite,agg,arr,comp', 'arith,partial,ite,let,arr', 'arith,nonlin,div,arr,let', 'arith,set,ite'][(ci + seed) % 4]
        if l == 'linear':
            feats = feats.replace('partial,', '')
        out += fixed('k%d' % ci, 300 if F else 14, 700 + seed * 50 + ci, lib=l, flags=fl)
        out += rand('q%d' % ci, feats, 300 if F else 22, 500 + seed * 50 + ci, lib=l, flags=fl, depth=2)
    out += fixed('k', 5000 if F else 300, 690 + seed)
    return out
