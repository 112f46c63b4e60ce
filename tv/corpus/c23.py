import re
from .util import *

BO = ['x < y', 'x + y = z', 'x*y > 3', 'a[j] = x', 'x div 2 = y', 'x mod 3 = 1', 'abs(x) = y', 'max(x,y) = z', 'min([x,y,z]) = y', 'x = y', 'x != 1', 'x in {0,2}', 'b /\\ c', 'b xor c', 'b -> x > 1', 'exists(v1 in 1..3)(a[v1+n-n] = x)' , 'x in s', 's subset t', 's = t', 'card(s) = 2',
      'if b then x else y endif = 2', 'x + 2*y <= 3', 'not (x = y)', 'x*x = y', 'bool2int(b) + x = 2', 'sum([x,y,z]) = 3', 'count([x,y,z],1) = 1', 'x div y = 1', 'a[x] = y', 'x mod y = 1', '[x,y,z][i] = 1', 'forall([b,c,x=1])', 'exists([b,x=1])', 'xorall([b,c])', 'iffall([b,c])', 'pp(x,y)', 'x + ff(y) = 2', 'ff(x) = ff(y)', 'let { var int: v1 = x + y } in v1 > 2', 'pow(x,2) = y', 'clause([b],[c])', 'all_different([x,y,z])']
BO = [e for e in BO if 'n-n' not in e]
PRE = 'predicate pp(var int: v7, var int: v8) = v7 + 1 < v8 \\/ v7*v8 = 2; function var int: ff(var int: v7) = if v7 > 1 then v7 - 1 else 2*v7 endif; include "all_different.mzn";'
IN = ['x*y', 'x div y', 'a[x]', 'a[j]', 'max(x,y)', 'abs(x)', 'x mod y', 'x + 2*y', 'card(s)', 'if b then x else y endif', 'ff(x)', 'bool2int(x < y)', 'sum([x,y,x])', 'min([x,y,z])', 'pow(x,2)', 'count([x,y,z],1)', '[x,y,z][j]', 'x - y', 'let { var int: v1 = x*y } in v1 + 1', 'sum(v1 in 1..2)(v1*x)']
# %s is the repeated Boolean
BT = ['constraint %s; constraint b <-> (%s);', 'constraint b <-> (%s); constraint %s;', 'constraint not (%s); constraint b <-> (%s);', 'constraint b <-> (%s); constraint not (%s);',
      'constraint b -> (%s); constraint c <-> (%s);', 'constraint c <-> (%s); constraint b -> (%s);', 'constraint (%s) -> b; constraint c -> (%s);', 'constraint b -> (%s); constraint (%s) -> c;',
      'constraint (%s) \\/ b; constraint not (%s) \\/ c;', 'constraint (%s) \\/ b; constraint bool2int(%s) + i = 2;', 'constraint if %s then i = 1 else i = 2 endif; constraint c -> (%s);',
      'constraint if b then %s else not (%s) endif;', 'constraint (%s) xor (%s) xor b;', 'constraint [b, %s, %s][j];', 'constraint (%s) <-> (%s); constraint b -> (%s);', 'constraint b <-> (c /\\ (%s)); constraint d <-> not (%s);',
      'constraint exists([b, not (%s)]); constraint exists([c, %s]);', 'constraint let { var bool: v9 = (%s) } in v9 -> b; constraint d <-> (%s);', 'constraint b <-> not (c /\\ not (%s)); constraint (%s) \\/ d;', 'constraint sum([%s, b, %s]) >= 1; constraint d -> not (%s);',
      'constraint b <-> (%s); constraint c <-> (%s); constraint b != c \\/ d;', 'constraint not (b -> (%s)) \\/ (c <-> (%s));']
IT = ['constraint b <-> (%s > 1); constraint c <-> (%s < 4);', 'constraint (%s) > 0 \\/ b; constraint not (%s = 2);', 'constraint i = (%s) \\/ b; constraint c -> i != (%s);', 'constraint b -> (%s) >= 1; constraint c -> (%s) <= 1;', 'constraint (%s) + i > 3 \\/ b; constraint (%s) - i < 1 \\/ c;',
      'constraint if b then (%s) else 3 endif = i; constraint c <-> ((%s) = 1);', 'constraint not (i = (%s)) \\/ b; constraint max((%s), i) = 2 \\/ c;', 'constraint b <-> exists([(%s) = i, c]); constraint d -> (%s) > 2;', 'constraint abs(%s) = i; constraint b <-> ((%s) > 0);',
      'constraint b <-> ((%s) = 2); constraint (%s) <= 3;', 'constraint (%s) <= 3; constraint b -> ((%s) = 2);', 'constraint (%s) in {0,1,2} \\/ b; constraint (%s) in {2,3} \\/ c;', 'constraint b <-> ((%s)*(%s) = 4);', 'constraint i*(%s) = 4 \\/ not ((%s) = 1) \\/ b;']
# functions whose arguments are undefined in one place and total in another
EXTRA = [
    'function var int: g1(var int: v7) :: promise_total = let { var int: v6 = max(v7,y) } in v6; constraint b <-> (max(a[z],y) > 2 /\\ g1(a[z]) > 3)',
    'function var int: g1(var int: v7) :: promise_total = v7*y; constraint b <-> (g1(a[z]) > 3 \\/ a[z]*y > 6)',
    'function var int: g1(var int: v7) :: promise_total = let { var int: v6 = v7 + y } in v6; constraint b <-> (abs(a[z]+y) > 2 /\\ g1(a[z]) > 3)',
    'function var int: g1(var int: v7) = let { constraint v7 > 1 } in v7 + 1; constraint b <-> (g1(x) = y); constraint c <-> (g1(x) > 3)',
    'function var int: g1(var int: v7) = let { constraint v7 > 1 } in v7 + 1; constraint b -> (g1(x) = y); constraint c -> not (g1(x) > 3)',
    'function var int: g1(var int: v7) = let { constraint v7 > 1 } in v7 + 1; constraint b <-> (g1(a[x]) = y); constraint c -> g1(a[x]) > 3',
    'predicate p1(var int: v7) = v7 div y > 1; constraint b <-> p1(x); constraint not p1(x)  \\/ c',
    'predicate p1(var int: v7) = v7 > 1; constraint b <-> not p1(a[x]); constraint c -> p1(a[x]); constraint d <-> p1(y)',
    'constraint b <-> (x < y); constraint c <-> (y > x); constraint d <-> (x >= y)',
    'constraint b <-> (x + y = 3); constraint c <-> (y + x = 3); constraint d -> (x + y != 3)',
    'constraint b <-> (x*y = z); constraint c <-> (y*x = z)', 'constraint b <-> (b /\\ c /\\ d); constraint exists([b, c /\\ d])', 'constraint b <-> (c \\/ d); constraint not (d \\/ c) \\/ x > 1; constraint (c \\/ d) -> y > 2',
    'var int: v1 = x*y; var int: v2 = x*y; constraint b <-> (v1 = v2); constraint c <-> (v1 > 3)', 'var int: v1 = max(x,y); constraint max(x,y) <= 2 \\/ b; constraint v1 >= 1', 'constraint x = max(x,y); constraint b <-> (max(x,y) = x)', 'constraint x = y; constraint b <-> (x = y); constraint c <-> (x*z = y*z)',
    'constraint not b; constraint b <-> (x < y); constraint c <-> (x < y)', 'constraint b; constraint c <-> not b; constraint d <-> (x < y) ; constraint d <-> not c', 'constraint x*y = x*y; constraint b <-> (x*y > 2)', 'constraint forall(v1 in 1..3)(b <-> (x + v1 > y)) \\/ c', 'constraint forall(v1 in 1..2)(if v1 = 1 then x < y else not (x < y) endif <-> b) \\/ (x < y /\\ c)',
    'var bool: v1 = (x < y); var bool: v2 = (x < y); constraint v1 \\/ b; constraint not v2 \\/ c', 'constraint (x < y) = b; constraint c = (x < y); constraint (x < y) \\/ (y < x) \\/ d', 'constraint abs(x) = abs(x) + i - i; constraint abs(x) > 2 -> b; constraint abs(x) <= 1 -> c',
]
# expressions that differ in one attribute only: sharing them would be wrong
NPRE = '''predicate q1(array[int] of var int: v7) = v7[max(index_set(v7))] > v7[min(index_set(v7))] + min(index_set(v7));
predicate q2(array[int,int] of var int: v7) = v7[2,1] = 1;
predicate q3(array[int] of var bool: v7) = v7[max(index_set(v7))] \\/ max(index_set(v7)) > 3;
predicate q4(set of int: v6, var int: v7) = v7 in v6; predicate q4(int: v6, var int: v7) = v7 = v6; predicate q4(bool: v6, var int: v7) = if v6 then v7 = 1 else v7 > 1 endif;
predicate q5(var int: v6, var int: v7) = v6 < v7; predicate q5(var bool: v6, var int: v7) = v6 /\\ v7 > 1;
predicate q6(array[int] of set of int: v6, var int: v7) = v7 in v6[min(index_set(v6))]; predicate q7(string: v6, var int: v7) = if v6 = "a" then v7 > 1 else v7 < 2 endif;
predicate q8(array[int] of int: v6, var int: v7) = v7 > sum(v8 in index_set(v6))(v8*v6[v8]);
predicate q9(tuple(int,bool): v6, var int: v7) = if v6.2 then v7 > v6.1 else v7 < v6.1 endif;
predicate q10(var set of int: v6, var int: v7) = v7 in v6; predicate q11(array[int,int] of int: v6, var int: v7) = v7 > v6[2,1];
predicate q12(var opt int: v6, var int: v7) = if occurs(v6) then v7 > 1 else v7 < 2 endif;'''
NEAR = [('q1([x,y,z])', 'q1(array1d(0..2,[x,y,z]))'), ('q1([x,y])', 'q1([x,y,x])'), ('q1([x,y,z])', 'q1([x,z,y])'), ('q2(array2d(1..2,1..3,[x,x,y,z,x,x]))', 'q2(array2d(1..3,1..2,[x,x,y,z,x,x]))'), ('q2(array2d(1..2,1..2,[x,x,y,z]))', 'q2(array2d(1..2,0..1,[x,x,y,z]))'), ('q2(array2d(1..2,1..2,[x,x,y,z]))', 'q2(array2d(0..2,1..1,[x,x,y]))'),
        ('q3([b,c])', 'q3([c,b])'), ('q3([b,c])', 'q3(array1d(3..4,[b,c]))'), ('q3([b,true])', 'q3([b,false])'), ('q4({1,2},x)', 'q4({1,3},x)'), ('q4(1..3,x)', 'q4({1,3},x)'), ('q4({1},x)', 'q4(1,x)'), ('q4(1,x)', 'q4(true,x)'), ('q4(true,x)', 'q4(false,x)'), ('q4({},x)', 'q4({0},x)'), ('q4(-1..2,x)', 'q4(1..2,x)'), ('q4(1..2,x)', 'q4(1..3,x)'), ('q4({0,2},x)', 'q4({0,2,5},x)'), ('q4(-1,x)', 'q4(1,x)'),
        ('q5(x,y)', 'q5(y,x)'), ('q5(x,y)', 'q5(b,y)'), ('q5(x,y)', 'q5(x,z)'), ('q5(1,y)', 'q5(true,y)'), ('q6([1..2,{}],x)', 'q6([{},1..2],x)'), ('q6([1..2,{}],x)', 'q6([1..3,{}],x)'), ('q7("a",x)', 'q7("b",x)'), ('q7("a",x)', 'q7("",x)'), ('q8([1,2],x)', 'q8([2,1],x)'), ('q8([1,0],x)', 'q8(array1d(0..1,[1,0]),x)'), ('q8([0,1],x)', 'q8([0,1,0,1],x)'), ('q8([0,1],x)', 'q8([0,-1],x)'),
        ('q9((1,true),x)', 'q9((1,false),x)'), ('q9((1,true),x)', 'q9((2,true),x)'), ('q10(s,x)', 'q10(t,x)'), ('q10(s,x)', 'q10({1,2},x)'), ('q10(s union t,x)', 'q10(s intersect t,x)'), ('q10(s diff t,x)', 'q10(t diff s,x)'), ('q11(array2d(1..2,1..3,[1,0,2,3,1,0]),x)', 'q11(array2d(1..3,1..2,[1,0,2,3,1,0]),x)'), ('q11([|1,0|2,3|],x)', 'q11([|1,0|3,2|],x)'), ('q12(o,x)', 'q12(p,x)'), ('q12(<>,x)', 'q12(1,x)'), ('q12(o,x)', 'q12(1,x)'),
        ('x < y', 'x <= y'), ('x <= y', 'y <= x'), ('x = y', 'x = z'), ('x = 1', 'x = 2'), ('x != 1', 'x = 1'), ('2*x + y <= 3', '2*x + y <= 4'), ('2*x + y <= 3', 'x + 2*y <= 3'), ('2*x - y <= 3', '-2*x + y <= 3'), ('x + y = 3', 'x - y = 3'), ('x*y = 2', 'x*z = 2'), ('x*x = 4', 'x*y = 4'), ('x div y = 1', 'y div x = 1'), ('x div 2 = 1', 'x div 3 = 1'), ('x div 2 = 1', 'x mod 2 = 1'), ('x mod 2 = 1', 'x mod -2 = 1'),
        ('a[j] = 1', 'a[i] = 1'), ('a[x] = y', 'xs[x] = y'), ('[x,y,z][j] = 1', '[x,z,y][j] = 1'), ('[x,y][j] = 1', '[x,y,z][j] = 1'), ('array1d(0..2,[x,y,z])[j] = 1', '[x,y,z][j] = 1'), ('w[i] = 1', 'w[i] = 2'), ('w[j] = x', 'w[i] = x'), ('m[1,j] = 1', 'm[j,1] = 1'), ('max(x,y) = 1', 'min(x,y) = 1'), ('max([x,y,z]) = 1', 'max([x,y]) = 1'), ('max([x,y,1]) = y', 'max([x,y,2]) = y'), ('sum([b,c,d]) = 1', 'sum([b,c]) = 1'),
        ('x in {1,2}', 'x in {1,3}'), ('x in 0..2', 'x in {0,2}'), ('x in s', 'x in t'), ('x in s', 'y in s'), ('s subset t', 't subset s'), ('s = t', 's = u'), ('card(s) = 1', 'card(t) = 1'), ('s subset {1,2}', 's subset {1,3}'), ('s = {1,2}', 's = {2}'), ('(s union t) = u', '(s intersect t) = u'), ('(s diff t) = u', '(t diff s) = u'), ('s < t', 't < s'), ('s <= t', 's < t'),
        ('b -> c', 'c -> b'), ('b \\/ c', 'b /\\ c'), ('b xor c', 'b <-> c'), ('b < c', 'c < b'), ('clause([b],[c])', 'clause([c],[b])'), ('clause([b,c],[d])', 'clause([b],[c,d])'), ('exists([b,c])', 'exists([b,d])'), ('forall([b,c])', 'exists([b,c])'), ('if b then x else y endif = 1', 'if b then y else x endif = 1'), ('if b then x else y endif = 1', 'if c then x else y endif = 1'), ('if b then x elseif c then y else z endif = 1', 'if b then x elseif c then z else y endif = 1'),
        ('count([x,y,z],1) = 1', 'count([x,y,z],2) = 1'), ('count([x,y,z],1) = 1', 'count([x,y,x],1) = 1'), ('pow(x,2) = y', 'pow(x,3) = y'), ('abs(x) = 1', 'abs(y) = 1'), ('o = 1', 'p = 1'), ('deopt(o) = 1', 'deopt(p) = 1'), ('occurs(o)', 'absent(o)'), ('all_different([x,y])', 'all_different([x,y,z])'), ('bool2int(b) = x', 'bool2int(c) = x'),
        ('sum(v5 in 1..2)(v5*x) = y', 'sum(v5 in 1..3)(v5*x) = y'), ('sum(v5 in 1..3 where v5 > 1)(v5*x) = y', 'sum(v5 in 1..3 where v5 < 2)(v5*x) = y'), ('let { var int: v5 = x + 1 } in v5 = y', 'let { var int: v5 = x + 2 } in v5 = y'), ('let { var 0..2: v5 = x } in v5 = y', 'let { var 0..3: v5 = x } in v5 = y')]
NT = ['constraint b <-> (%1); constraint c <-> (%2);', 'constraint c <-> (%2); constraint b <-> (%1);', 'constraint b -> (%1); constraint (%2) -> c;', 'constraint (%1) \\/ (%2); constraint d -> not (%2);', 'constraint not (%1) \\/ b; constraint d <-> (%2);', 'constraint sum([%1, %2, %2, %1]) = i;', 'constraint (%1) xor (%2) xor d;', 'constraint %1; constraint d <-> (%2);', 'constraint d <-> (%2); constraint %1;', 'constraint not (%1); constraint d <-> (%2);', 'constraint if b then %1 else %2 endif; constraint d <-> not (%1);', 'constraint (d /\\ (%1)) \\/ (not d /\\ (%2));']
CLS = [['x', 'y', 'z'], ['b', 'c', 'd'], ['i', 'j', 'k'], ['s', 't', 'u'], ['<', '<=', '=', '!=', '>', '>='], ['/\\', '\\/', 'xor', '<->', '->'], ['min', 'max'], ['div', 'mod'], ['union', 'intersect', 'diff', 'symdiff'], ['forall', 'exists'], ['0', '1', '2', '3', '4', '5'], ['+', '-']]
TOK = re.compile(r'[A-Za-z][A-Za-z0-9_]*|[0-9]+|<->|->|<-|/\\|\\/|<=|>=|!=|\.\.|"[^"]*"|\S| +')


def mutate(e, r):
    ts = TOK.findall(e)
    c = [(i, k) for i, t in enumerate(ts) for k in CLS if t in k and not (t == '-' and i + 1 < len(ts) and ts[i + 1].isdigit())]
    if '..,' in e or ',..' in e:
        c = [q for q in c if q[1][0] != '0']
    if not c:
        return e
    for _ in range(4):
        i, k = r.choice(c)
        if k[0] in ('0', '+') and r.random() < .5:
            continue
        ts[i] = r.choice([t for t in k if t != ts[i]])
        break
    return ''.join(ts)


def near(name, n, seed, lib):
    out = []
    for i in range(n):
        p = i % 6
        R = gen.Rand('nr%d-%d' % (seed, i), set('arith,ite,nonlin,set,agg,comp,arr2'.split(',')), p=p)
        e = R.bools(1 + i % 2)
        e2 = mutate(e, R.r)
        t = R.r.choice(NT).replace('%1', e).replace('%2', e2)
        out.append(Case('%s-n%d-%d-%s' % (name, seed, i, lib), gen.model(t, p), lib=lib))
    return out


def nearlist(name, per, seed, lib):
    rng = random.Random('nl-%s-%s' % (seed, lib))
    out = []
    for n, (e1, e2) in enumerate(NEAR):
        for k in (range(len(NT)) if per is None else rng.sample(range(len(NT)), per)):
            m = NT[k].replace('%1', e1).replace('%2', e2)
            pre = 'include "all_different.mzn";' if 'all_diff' in m else ''
            if re.search('q[0-9]+\\(', m):
                pre += NPRE
            p = (n + k + seed) % 4
            out.append(Case('%s-%d-t%d-p%d-%s' % (name, n, k, p, lib), gen.model(m, p, pre=pre), lib=lib))
    return out


RULE = 'every repeated subexpression (62) x templates placing its occurrences in different contexts and orders (36), plus CSE/partiality models and random models whose constraints share random subexpressions; std, half-reification and linear libraries'


def share(name, n, seed, lib, start=0):
    out = []
    for i in range(start, start + n):
        p = i % 6
        R = gen.Rand('sh%d-%d' % (seed, i), set('arith,ite,arr,nonlin,partial'.split(',')), p=p)
        r = R.r
        if r.random() < .6:
            e = R.bools(1 + i % 2)
            t = r.choice(BT)
        else:
            e = R.ints(1 + i % 2)
            t = r.choice(IT)
        m = t.replace('%s', e)
        if r.random() < .5:
            e2 = R.bools(1)
            m = m + ' ' + r.choice(BT).replace('%s', e2)
        out.append(Case('%s-s%d-%d-%s' % (name, seed, i, lib), gen.model(m, p), lib=lib))
    return out


def tmpl(name, exprs, templates, per, seed, lib):
    rng = random.Random('%s-%s-%s' % (name, seed, lib))
    out = []
    for n, e in enumerate(exprs):
        ts = list(enumerate(templates))
        if per is not None:
            rng.shuffle(ts)
            ts = ts[:per]
        for k, t in ts:
            p = (n + k + seed) % 4
            out.append(Case('%s-%d-t%d-p%d-%s' % (name, n, k, p, lib), gen.model(t.replace('%s', e), p, pre=PRE if ('pp(' in e or 'ff(' in e or 'all_diff' in e) else ''), lib=lib))
    return out


def cases(tier, seed):
    F = full(tier)
    out = []
    for l, per in (('std', 7), ('half', 4), ('linear', 2)):
        out += tmpl('b', BO, BT, None if F else per, seed, l)
        out += tmpl('i', IN, IT, None if F else per, seed, l)
        out += items('x', EXTRA, profs=(0, 3) if not F else range(4), lib=l)
    for l, n in (('std', 200), ('half', 120), ('linear', 80)):
        out += share('q', 3000 if F else n, 300 + seed, l)
    for l, n, per in (('std', 250, 3), ('half', 100, 1), ('linear', 50, 1)):
        out += near('n', 3000 if F else n, 400 + seed, l)
        out += nearlist('l', None if F else per, seed, l)
    return out
