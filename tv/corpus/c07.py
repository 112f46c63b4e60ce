from .util import *

EXPRS = [
    'occurs(o)', 'absent(o)', 'occurs(o) /\\ occurs(p)', 'occurs(o) <-> absent(p)', 'occurs(o) xor b', 'occurs(oa[j])', 'absent(oa[i])', 'occurs(ob)', 'absent(ob) \\/ c', 'o = 1', 'o != 1', 'o = p', 'o != p', 'o = <>', 'o != <>', 'not (o = p)', 'o = x', 'x = o', 'o != x', 'o < p', 'o <= 2', 'o > x', 'o >= p', 'not (o < p)', 'not (o < x)', '2 < o',
    'o ~= p', 'o ~= 2', 'not (o ~= p)', 'o ~!= p' if False else 'o ~= x', 'occurs(o) -> deopt(o) > 1', 'occurs(o) /\\ deopt(o) = x', 'absent(o) \\/ deopt(o) = x', 'if occurs(o) then deopt(o) else 0 endif = y', 'if absent(o) then x else deopt(o) endif = z', 'occurs(ob) /\\ deopt(ob)', 
    'o + p = 3', 'o + x = 3', 'x + o = 2', 'o + 1 >= 2', 'o - p = 1', 'o - x = 1', 'x - o = 1', 'o - 1 = 0', 'o * p = 2', 'o * x = 4', '2*o <= 3', 'x*o = y', 'o div p = 1', 'o div x = 1', 'x div o = 1', 'o div 2 = 1', 'o mod 2 = 1', 'x mod o = 1', 'o mod p = 0', '-o = x', 'abs(o) = 1', 'o ~+ p = 3', 'o ~+ 1 = 2', 'o ~- p = 1', 'o ~* p = 2', 'o ~* 2 = x', 'o ~div 2 = 1', '(o ~+ p) + x = 3', 'absent(o ~+ p)', 'occurs(o ~* 2)', 'absent(o - p)', 'occurs(o div 2)', 'absent(-o)', 'occurs(abs(o))',
    'ob /\\ oc', 'ob \\/ oc', 'ob /\\ c', 'ob \\/ c', 'ob -> oc', 'ob -> c', 'c -> ob', 'ob <- c', 'ob <-> oc', 'ob xor oc', 'ob <-> c', 'ob xor c', 'occurs(not ob)', '(not ob) = c', 'ob = oc', 'ob != oc', 'ob = true', 'ob = c', 'ob < oc' if False else 'ob = <>', 'not (ob /\\ oc)', 'not (ob -> oc)',
    'o in 1..2', 'o in {0,2}', 'o in S', 'o in s', 'not (o in {1,2})', 'not (o in s)', 'o in {x,y}' if False else 'o in {}', 'o in -10..10', 'o in s union t',
    'sum(oa) = 2', 'sum([o,p]) = 3', 'sum([o,x]) = 2', 'sum(v1 in 1..3)(oa[v1]) > 1', 'product(oa) = 2', 'product([o,x]) = 2', 'max(oa) = 2', 'min(oa) = 1', 'max([o,p]) = x', 'min([o,x]) = 1', 'max([o,p]) > min([o,p])', 'not (max(oa) = 1)', 'max_weak(oa) = 1', 'absent(max_weak(oa))', 'min_weak([o,p]) = x', 'occurs(min_weak([o,p]))', 'min_weak([o,p]) = <>', 'forall(oba)', 'exists(oba)', 'forall([ob,c])', 'exists([ob,c])', 'not forall(oba)', 'not exists(oba)', 'xorall(oba)', 'iffall(oba)', 'xorall([ob,oc])', 'clause([ob],[oc])', 'clause([ob,c],[oc])', 'count(oba) = 1', 'count([ob,oc,c]) = 2', 'count([ob,oc,c]) >= 1',
    'sum(v1 in s)(v1) = 3', 'sum(v1 in s)(1) = 2', 'sum(v1 in 1..3 where x > v1)(v1) = 3', 'sum(v1 in 1..3 where bb[v1])(v1) = 3', 'sum(v1 in 1..3 where bb[v1])(x*v1) = 3', 'sum(v1 in 0..2 where v1 != x)(v1 + 1) = 3', 'sum([if bb[v1] then 1 else <> endif | v1 in 1..3]) = 2', 'exists(v1 in s)(v1 > x)', 'forall(v1 in s)(v1 > x)', 'exists(v1 in 1..3 where bb[v1])(v1 = x)', 'forall(v1 in 1..3 where bb[v1])(v1 > x)', 'not exists(v1 in s)(v1 = x)', 'not forall(v1 in s)(v1 <= x)', 'forall(v1 in s, v2 in t)(v1 != v2)', 'exists(v1 in s, v2 in s where v1 < v2)(v1 + v2 = x)', 'sum(v1 in s, v2 in t where v1 < v2)(1) = 2', 'max(v1 in s)(v1) = 2', 'min(v1 in s)(x - v1) = 0', 'max([v1 | v1 in 1..3 where bb[v1]]) = 2', 'min([a[j] | v1 in 1..2 where bb[v1]]) = 1', 'max([v1 | v1 in 1..3 where v1 > x]) = 3', 'not (max([v1 | v1 in 1..3 where bb[v1]]) = 2)', 'product(v1 in s)(v1) = 2', 'product([v1 + 1 | v1 in 0..2 where bb[v1+1]]) = 2',
    'sum(v1 in s where v1 > 1)(v1) = 3', 'sum(v1 in s where v1 > x)(v1) = 3', 'sum(v1 in s union t)(v1) = 3', 'sum(v1 in 1..2 where x > v1 /\\ v1 > 1)(v1) = 2', 'sum(v1, v2 in s where v1 < v2)(v1*v2) >= 2', 'exists(v1 in s where v1 != x)(v1 = y)', 'sum(v1 in s)(bool2int(v1 = x)) = 1', 'sum(v1 in s)(a[j]) = 2',
    'oa[j] = 1', 'oa[j] = <>', 'oa[x] = 1', 'oa[j] = o', 'oa[j] != oa[i]', 'not (oa[j] = 1)', 'oa[j] < x', 'oa[j] + x = 2', 'oba[j]' if False else 'oba[j] = true', 'oba[j] \\/ c', '[o,p,3][j] = 1', '[o,p][x] = 1', 'a[o] = 1', 'absent(a[o])', 'w[o] = 3', 'a[o] != 1', 'a[o] + x = 2', 'm[o,1] = 1', '[1,<>,2][j] = 1', '[1,<>,2][x] = <>', 'occurs([1,<>,2][j])', 'occurs([1,<>,2][x])', 'not (occurs([o,<>,2][x]))',
    '(if b then o else p endif) = 1', '(if b then o else x endif) = 1', '(if b then x else <> endif) = 1', 'occurs(if b then x else <> endif)', 'absent(if b then o else p endif)', '(if b then o else p endif) = <>', '(if x > 1 then o elseif c then <> else 2 endif) + y = 3', '(if b then ob else c endif) \\/ d', 'occurs(if b then ob else <> endif)', '(if occurs(o) then p else <> endif) = 2', '(if b then <> elseif c then <> else x endif) != 1',
    'let { var opt int: v1 = o } in v1 = 1', 'let { var opt int: v1 = if b then x else <> endif } in v1 + y = 2', 'let { var opt 0..2: v1 = o } in occurs(v1) /\\ b', 'let { var opt bool: v1 = ob } in v1 \\/ b', 'let { var opt int: v1 = x } in v1 = y', 'let { var opt 1..2: v1 = x } in v1 = y', 'not (let { var opt 1..2: v1 = o } in v1 = y)', 'let { array[1..2] of var opt int: v1 = [o,x] } in v1[j] = 1', 
    'oa = [o,p,<>]', '[o,p] = [1,x]', '[o,p] != [p,o]', 'oa != [<>,<>,<>]', '[o] = [<>]', 'oba = [ob,c,<>]', 'array2set(oa) = s', 'x in array2set(oa)', 'card(array2set([o,p,x])) = 2', 'array2set([o,2]) subset s', 'x in [o,p]', 'o in [x,2]', 'has_element(1, [2,<>,1]) /\\ b', 'bool2int(occurs(o)) + bool2int(occurs(p)) = 1', 'bool2int(o = p) = x', 'o = 1 \\/ p = 1', 'o = 1 -> p = 2', '(o = 1) <-> (p = 1)', '(o < x) xor b',
    'o + p + x = 4', 'o + p + x <= 4', '2*o + 3*p <= 5', 'x + 2*o != 3', 'o + o = 2', 'o - o = 0', '(o + 1) div 2 = 1', 'abs(o + x) = 1', 'o*o = 1', 'occurs(o) /\\ occurs(p) /\\ deopt(o) = deopt(p)', 'absent(o) /\\ absent(p)', 'absent(o) -> absent(p)', 'not absent(o) /\\ o < 2', 'forall(v1 in 1..3)(occurs(oa[v1]))', 'exists(v1 in 1..3)(absent(oa[v1]))', 'forall(v1 in 1..2)(oa[v1] < oa[v1+1])', 'sum(v1 in 1..3)(bool2int(occurs(oa[v1]))) = 2', 'forall(v1 in 1..3 where occurs(oa[v1]))(deopt(oa[v1]) = x)', 'sum(v1 in 1..3 where occurs(oa[v1]))(deopt(oa[v1])) = 2',
]
ITEMS = [
    'var opt 1..3: e; constraint e = o; constraint occurs(e) -> deopt(e) > 1', 'var opt int: e = o; constraint e = 2 \\/ b', 'var opt int: e = if b then x else <> endif; constraint e < y', 'var opt 0..2: e = x; constraint b <-> e = y', 'array[1..2] of var opt int: e = [o,x]; constraint e[1] = e[2] \\/ b',
    'constraint occurs(o); constraint b <-> o = 2', 'constraint absent(o); constraint b <-> (o = p)', 'constraint absent(o); constraint x = o + p', 'constraint occurs(o); constraint deopt(o) = x; constraint b <-> (p = o)', 'constraint o = p; constraint occurs(o) -> x = deopt(p)', 'constraint o = x; constraint p != x', 'constraint o = <>; constraint b -> p = o',
    'predicate pq(var opt int: v7, var int: v8) = occurs(v7) /\\ deopt(v7) < v8; constraint pq(o,x); constraint b <-> pq(p,y)', 'predicate pq(var opt int: v7) = v7 > 1; constraint not pq(o); constraint b -> pq(p); constraint c <-> pq(x)', 'function var opt int: fo(var opt int: v7) = if occurs(v7) then deopt(v7) + 1 else <> endif; constraint fo(o) = x; constraint b <-> absent(fo(p))', 'function var int: fo(var opt int: v7, int: v8) = if occurs(v7) then deopt(v7) else v8 endif; constraint fo(o,0) + fo(p,1) = x', 'function var opt bool: fo(var opt bool: v7) = if occurs(v7) then deopt(v7) != b else <> endif; constraint fo(ob) \\/ c; constraint d <-> occurs(fo(oc))',
    'function var int: fo(var int: v7) = 1; function var int: fo(var opt int: v7) = 2; constraint fo(o) + fo(x) = i', 'array[1..3] of var opt 0..2: e; constraint e[1] = 1; constraint e[2] = <>; constraint e[j] = x', 'array[1..3] of opt int: e = [1,<>,3]; constraint e[j] = x', 'array[1..3] of opt int: e = [1,<>,3]; constraint sum(e) = x; constraint b <-> occurs(e[j])', 'array[1..2] of opt int: e = [<>,<>]; constraint b <-> (max_weak(e) = x) \\/ c', 'opt int: e = <>; constraint x = o + e; constraint b <-> (e = o)', 'opt int: e = 2; constraint b <-> (e = o); constraint x = e + p', 'opt bool: e = <>; constraint b <-> (e \\/ ob); constraint c <-> (e /\\ oc)',
    'var set of 1..3: e = {v1 | v1 in 1..3 where bb[v1]}; constraint e subset s', 'constraint s = {v1 | v1 in t where v1 > 1}', 'constraint s = {v1 + 1 | v1 in t}; constraint b <-> x in s', 'constraint sum(v1 in s)(v1) = x; constraint card(s) = 2', 'array[int] of var opt int: e = [v1 | v1 in 1..3 where bb[v1]]; constraint sum(e) = x; constraint b <-> (e[2] = 2)', 'array[int] of var opt int: e = [x + v1 | v1 in s]; constraint sum(e) = y', 'constraint forall(v1 in s)(x > v1 -> b); constraint exists(v1 in s)(not (y > v1))', 'constraint b <-> forall([ob,oc,c]); constraint d <-> exists([ob,oc,c])',
    'var opt bool: e = (x > 1); constraint e -> b', 'var opt bool: e; constraint e = (x > 1) \\/ b', 'var opt bool: e; constraint occurs(e) -> (deopt(e) <-> x > 1); constraint b <-> e = true', 'enum E = {A,B,C}; var opt E: e; constraint e = A \\/ b; constraint c <-> absent(e)', 'enum E = {A,B,C}; var opt E: e; array[E] of var 0..2: e2; constraint e2[e] = 1 \\/ b', 'enum E = {A,B,C}; var opt E: e; var E: e2; constraint e < e2; constraint b <-> (e = e2)', 'enum E = {A,B,C}; array[1..2] of var opt E: e; constraint e[1] != e[2]; constraint max(e) = B \\/ b', 'var opt 3..3: e; constraint b <-> e = 3; constraint x + e = 4 \\/ c', 'var opt {1,4}: e; constraint e > x; constraint e != 4 \\/ b',
    'var opt -1..2: e; constraint e in {0,2}; constraint b <-> e > x', 'var opt -1..2: e; constraint not (e in {0,2}); constraint b <-> e > x', 'var opt int: e; constraint e in {0,2}; constraint b <-> e > x', 'tuple(var opt 0..2, var bool): e; constraint e.1 = x \\/ e.2; constraint b <-> absent(e.1)', 'record(var opt 0..2: f1, var bool: f2): e; constraint e.f1 < x; constraint e.f2 <-> occurs(e.f1)', 'array[1..2,1..2] of var opt 0..1: e; constraint e[j,1] = x; constraint sum(array1d(e)) = y', 'constraint if occurs(o) then deopt(o) = x else b endif; constraint if absent(p) then y = 1 else y = deopt(p) endif',
    'var opt 0..3: e :: output; constraint e = o ~+ 1; constraint b <-> e = 2', 'constraint o ~= p; constraint b <-> (occurs(o) /\\ occurs(p))', 'constraint x = sum([o,p,<>,2]); constraint b -> absent(o)', 'constraint let { var opt 0..2: v7 } in v7 = o /\\ (v7 = 1 \\/ b)', 'constraint let { var opt 0..2: v7; constraint v7 > x } in v7 = o',
]
RULE = 'handwritten option-type expressions (occurs/absent/deopt, lifted and weak operators, aggregates, variable-condition comprehensions, arrays and conditionals of options) in 23 contexts, items with option declarations, functions and enums, and seeded random expressions over options'


class OptRand(gen.Rand):
    """random expressions with optional values"""
    def opts(self, d):
        r = self.r
        if d <= 0 or r.random() < .25:
            return r.choice(['o', 'o', 'p', 'p', 'oa[%s]' % self.jidx(0), '<>', 'x'] if d > -1 else ['o', 'p'])
        return r.choice([
            lambda: '(%s %s %s)' % (self.opts(d - 1), r.choice(['~+', '~-', '~*']), self.opts(d - 1)),
            lambda: '(if %s then %s else %s endif)' % (self.obools(d - 1), r.choice(['o', 'p', self.opts(d - 1)]), r.choice(['o', 'p', '<>', 'x'])),
            lambda: '(if %s then %s else <> endif)' % (self.obools(d - 1), self.ints(d - 1)),
            lambda: 'min_weak([%s,%s])' % (self.opts(d - 1), r.choice(['o', 'p', 'x'])),
            lambda: '[%s,o,%s][%s]' % (self.opts(d - 1), r.choice(['p', 'x', '<>', '2']), self.jidx(0)),
            lambda: '(o - %s)' % self.opts(d - 1), lambda: '(p div %s)' % r.choice(['2', '3', '-2']), lambda: '-(%s)' % r.choice(['o', 'p']), lambda: 'abs(%s)' % r.choice(['o', 'p'])])()

    def oints(self, d):
        r = self.r
        return r.choice([
            lambda: '(%s + %s)' % (r.choice(['o', 'p', self.opts(d - 1)]), r.choice(['o', 'p', 'x', self.ints(d - 1)])), lambda: '(x - %s)' % self.opts(d - 1), lambda: '(%s * %s)' % (r.choice(['o', 'p']), self.ints(0)),
            lambda: 'sum([%s,%s,%s])' % (self.opts(d - 1), self.opts(d - 1), self.ints(0)), lambda: '%s([%s,%s])' % (r.choice(['max', 'min']), r.choice(['o', 'p']), self.opts(d - 1)), lambda: 'sum(oa)', lambda: 'if occurs(%s) then deopt(%s) else 1 endif'.replace('%s', r.choice(['o', 'p', 'oa[j]'])),
            lambda: 'if occurs(%s) then %s else %s endif' % (r.choice(['o', 'p']), self.oints(d - 1) if d > 0 else 'x', self.ints(0)), lambda: 'sum(v5 in 1..3 where %s)(%s)' % (r.choice(['bb[v5]', 'v5 in s', 'v5 > x', 'occurs(oa[v5])']), r.choice(['v5', 'x', 'v5 + y', 'oa[v5]'])),
            lambda: 'sum(v5 in s)(%s)' % r.choice(['v5', 'x', '1', 'v5 + y']), lambda: 'count([ob,oc,%s])' % r.choice(['b', '<>', 'c', 'x > 1'])])()

    def obools(self, d):
        r = self.r
        if d <= 0:
            return r.choice(['occurs(o)', 'absent(p)', 'b', 'c', 'o = 1', 'o = p', 'p < 2', 'x > 1', 'occurs(ob)', 'o != x', 'o in {0,1}', 'oa[j] = 1'])
        return r.choice([
            lambda: '(%s %s %s)' % (self.opts(d - 1), r.choice(['=', '!=', '<', '<=', '>', '>=', '~=']), self.opts(d - 1)), lambda: '(%s %s %s)' % (self.oints(d - 1), r.choice(['=', '<=', '!=', '>']), self.ints(d - 1)),
            lambda: '(%s %s %s)' % (self.obools(d - 1), r.choice(['/\\', '\\/', '->', '<->', 'xor']), self.obools(d - 1)), lambda: 'not (%s)' % self.obools(d - 1), lambda: 'occurs(%s)' % r.choice(['o', 'p', self.opts(d - 1)]), lambda: 'absent(%s)' % self.opts(d - 1).replace('<>', 'o'),
            lambda: '(%s %s %s)' % (r.choice(['ob', 'oc', 'oba[j]']), r.choice(['/\\', '\\/', '->', '<->', 'xor']), r.choice(['ob', 'oc', self.obools(d - 1)])), lambda: '%s([ob,%s,oc])' % (r.choice(['forall', 'exists']), self.obools(d - 1)), lambda: '(%s in %s)' % (self.opts(d - 1).replace('<>', 'o') if d < 2 else r.choice(['o', 'p', 'oa[j]']), r.choice(['{0,1}', '1..2', 's', '{}', '-1..3'])),
            lambda: '%s(v5 in %s)(%s)' % (r.choice(['forall', 'exists']), r.choice(['s', '1..3 where bb[v5]', '1..3 where v5 > x', '1..3 where occurs(oa[v5])']), r.choice(['v5 > y', 'o = v5', 'v5 != x', 'oa[2] < v5'])), lambda: 'if %s then %s else %s endif' % (self.obools(d - 1), self.obools(d - 1), self.obools(0))])()


def orand(name, n, seed, lib='std', flags=()):
    out = []
    for i in range(n):
        R = OptRand('opt-%d-%d' % (seed, i), {'arith', 'ite', 'arr'}, p=i % 6)
        e = R.obools(2 + i % 2)
        out.append(Case('%s-r%d-%d-%s' % (name, seed, i, lib), gen.model(gen.CTX[i % len(gen.CTX)][1] % e, i % 6), lib=lib, flags=flags))
    return out


def cases(tier, seed):
    F = full(tier)
    out = grid('e', EXPRS, ALLCTX, range(4), None if F else 3 * len(EXPRS), seed)
    out += items('i', ITEMS, range(4) if F else (0, 1 + seed % 3))
    out += grid('e', EXPRS, MAINCTX, range(4), (6 if F else 1) * len(EXPRS), seed + 10, lib='linear')
    out += orand('q', 4000 if F else 450, 70 + seed)
    out += orand('q', 1000 if F else 60, 170 + seed, lib='linear')
    return out
