"""Generators of MiniZinc models: handwritten expression lists crossed with contexts and
domain profiles, and a seeded random expression generator."""
import random, re

# ---------------------------------------------------------------- declarations
IPROF = [
    dict(x='-3..5', y='-2..4', z='0..6'),
    dict(x='0..4', y='1..3', z='-4..-1'),
    dict(x='{-2,1,3,6}', y='{0,2,5}', z='1..1'),
    dict(x='-7..7', y='-1..1', z='{-3,3}'),
    dict(x='2..5', y='3..8', z='0..1'),
    dict(x='-6..-2', y='{-4,-3,0,4}', z='-1..2'),
]
ASHAPE = ['1..3', '0..2', '-1..1', '2..4']


def decls(p=0, extra=None):
    q = IPROF[p % len(IPROF)]
    d = {
        'x': 'var %s: x;' % q['x'], 'y': 'var %s: y;' % q['y'], 'z': 'var %s: z;' % q['z'],
        'i': 'var 0..4: i;', 'j': 'var 1..3: j;', 'k': 'var -1..4: k;',
        'b': 'var bool: b;', 'c': 'var bool: c;', 'd': 'var bool: d;',
        'bb': 'array[1..3] of var bool: bb;',
        'a': 'array[%s] of var %s: a;' % (ASHAPE[p % 4], ['0..3', '-2..2', '{1,4}', '1..4'][p % 4]),
        'm': 'array[1..2,0..2] of var %s: m;' % (['0..2', '-1..1'][p % 2]),
        's': 'var set of %s: s;' % (['1..4', '-1..2', '{0,2,5}', '0..3'][p % 4]),
        't': 'var set of %s: t;' % (['2..5', '-2..1', '0..2', '{1,3}'][p % 4]),
        'u': 'var set of %s: u;' % (['1..3', '0..2', '{2,5}', '3..4'][p % 4]),
        'o': 'var opt %s: o;' % (['1..3', '-2..2', '{0,4}', '0..3'][p % 4]),
        'p': 'var opt %s: p;' % (['2..4', '-1..1', '{0,2,4}', '0..0'][p % 4]),
        'ob': 'var opt bool: ob;', 'oc': 'var opt bool: oc;',
        'oa': 'array[1..3] of var opt %s: oa;' % (['0..2', '-1..2'][p % 2]),
        'oba': 'array[1..3] of var opt bool: oba;',
        'f': 'var %s: f;' % (['0.0..4.0', '-2.0..2.0', '-3.5..-0.5'][p % 3]),
        'g': 'var %s: g;' % (['-1.0..3.0', '0.5..2.5', '-2.0..1.0'][p % 3]),
        'h': 'var 0.0..10.0: h;',
        'fa': 'array[1..3] of var -2.0..3.0: fa;',
        'n': 'int: n = %d;' % (p % 4),
        'w': 'array[1..4] of int: w = [%s];' % (['3,-1,0,2', '1,2,3,4', '5,5,-5,0', '0,0,1,1'][p % 4]),
        'q': 'array[1..3] of bool: q = [true,false,true];',
        'fw': 'array[1..3] of float: fw = [1.5,-2.0,0.25];',
        'ix': 'array[%s] of int: ix = array1d(%s,[%s]);' % (['0..2', '-1..1', '1..3', '2..4'][p % 4], ['0..2', '-1..1', '1..3', '2..4'][p % 4], ['3,1,2', '1,0,1', '-1,1,0', '4,2,3'][p % 4]),
        'm2': 'array[0..1,1..2] of int: m2 = array2d(0..1,1..2,[%s]);' % (['1,2|0,1', '3,0|2,1', '1,1|2,3', '0,-1|2,4'][p % 4]).replace('|', ','),
        'S': 'set of int: S = %s;' % (['1..3', '{0,2}', '{}', '-1..4'][p % 4]),
        'SS': 'array[1..3] of set of int: SS = [1..2,{},{0,3}];',
        'sa': 'array[1..2] of var set of 1..3: sa;',
        'xs': 'array[1..4] of var 0..3: xs;', 'ys': 'array[1..4] of var 0..3: ys;',
    }
    if extra:
        d.update(extra)
    return d


WORD = re.compile(r"(?<![A-Za-z0-9_'])(?<!(?<!\.)\.)([A-Za-z][A-Za-z0-9_]*)(?![A-Za-z0-9_'])")


def model(con, p=0, extra=None, pre='', post='', solve='solve satisfy;'):
    d = decls(p, extra)
    bound = set()
    text = con + ' ' + pre + ' ' + post + ' ' + solve
    text2 = re.sub(r'"(\\.|[^"\\])*"', '""', text)
    used = [w for w in dict.fromkeys(WORD.findall(text2)) if w in d]
    # names bound locally are recognised by a trailing prime-free convention: generators use v1,v2,...
    return ' '.join(d[w] for w in d if w in used) + '\n' + pre + '\n' + con + '\n' + post + '\n' + solve + '\n'


CTX = [
    ('root', 'constraint %s;'),
    ('neg', 'constraint not (%s);'),
    ('reif', 'constraint b <-> (%s);'),
    ('reifneg', 'constraint b != (%s);'),
    ('imp', 'constraint b -> (%s);'),
    ('limp', 'constraint (%s) -> b;'),
    ('or', 'constraint (%s) \\/ c \\/ b;'),
    ('xor', 'constraint (%s) xor c;'),
    ('b2i', 'constraint bool2int(%s) + i = 2;'),
    ('itec', 'constraint if %s then i = 1 else i = 2 endif;'),
    ('itet', 'constraint if b then %s else c endif;'),
    ('let', 'constraint let { var bool: v9 = (%s) } in v9 \\/ b;'),
    ('arr', 'constraint [b, %s][j];'),
    ('fora', 'constraint forall(v8 in 1..2)(v8 = i \\/ (%s));'),
    ('exis', 'constraint exists(v8 in 0..1)(v8 = i /\\ (%s));'),
    ('eqf', 'constraint (%s) = false \\/ b;'),
    ('negimp', 'constraint not (b -> (%s));'),
    ('negor', 'constraint not ((%s) \\/ b);'),
    ('and', 'constraint b = ((%s) /\\ c);'),
    ('sum', 'constraint sum([b, %s, c]) >= 2;'),
    ('fun', 'constraint pp(b) ; predicate pp(var bool: v7) = v7 <-> (%s);'),
    ('xorall', 'constraint xorall([b, %s, true]);'),
    ('nested', 'constraint (b \\/ not (c /\\ (%s))) <-> d;'),
]
CTXD = dict(CTX)


def cross(name, exprs, ctxs, profs, rng, lib='std', limit=None, **kw):
    """all expressions x a rotation of contexts/profiles; returns list of (id, text)"""
    out = []
    for n, e in enumerate(exprs):
        for c in ctxs:
            for p in profs:
                out.append(('%s-%d-%s-p%d' % (name, n, c, p), model(CTXD[c] % e, p, **kw)))
    if limit is not None and len(out) > limit:
        # every expression and every context stays represented: rotate through the product
        per = max(1, limit // max(1, len(exprs)))
        out = []
        for n, e in enumerate(exprs):
            combos = [(c, p) for c in ctxs for p in profs]
            rng.shuffle(combos)
            pick = [('root', combos[0][1])] if 'root' in ctxs else []
            for c, p in combos:
                if len(pick) >= per:
                    break
                if c not in [a for a, _ in pick]:
                    pick.append((c, p))
            for c, p in pick:
                out.append(('%s-%d-%s-p%d' % (name, n, c, p), model(CTXD[c] % e, p, **kw)))
    return out


# ---------------------------------------------------------------- random expressions
class Rand:
    """Random expressions over the declaration pool.  feats: set of feature names
    arith, nonlin, div(total only), partial, ite, let, arr, comp, agg, set, opt, enum, float"""

    def __init__(self, seed, feats, p=0):
        self.r = random.Random(seed)
        self.f = feats
        self.p = p
        self.nv = 0
        self.loc = []          # locally bound int names

    def ch(self, opts):
        opts = [o for o in opts if o[1] is None or (o[1] in self.f)]
        ws = [o[0] for o in opts]
        return self.r.choices(opts, ws)[0][2]

    def nm(self):
        self.nv += 1
        return 'v%d' % self.nv

    def const(self):
        return str(self.r.choice([0, 1, 1, 2, 3, -1, -2, 5, 4]))

    def ivar(self):
        v = ['x', 'y', 'z']
        if self.loc and self.r.random() < .5:
            return self.r.choice(self.loc)
        return self.r.choice(v)

    def ints(self, d):
        r = self.r
        if d <= 0 or r.random() < .15:
            return self.ch([(6, None, self.ivar), (2, None, self.const),
                            (1, 'arr', lambda: 'a[%s]' % self.aidx(0)),
                            (1, None, lambda: 'bool2int(%s)' % self.bvar())])()
        return self.ch([
            (5, None, lambda: '(%s %s %s)' % (self.ints(d - 1), r.choice('+-'), self.ints(d - 1))),
            (2, None, lambda: '%d*%s' % (r.choice([2, 3, -1, -2, 0, 1]), self.atom(d - 1))),
            (1.5, 'nonlin', lambda: '%s*%s' % (self.ivar(), self.atom(0))),
            (1, 'nonlin', lambda: 'pow(%s,%d)' % (self.ivar(), r.choice([2, 3]))),
            (1.5, None, lambda: 'abs(%s)' % self.ints(d - 1)),
            (1, None, lambda: '-(%s)' % self.ints(d - 1)),
            (2, None, lambda: '%s(%s,%s)' % (r.choice(['min', 'max']), self.ints(d - 1), self.ints(d - 1))),
            (1.5, None, lambda: '(%s %s %s)' % (self.atom(d - 1), r.choice(['div', 'mod']), r.choice(['2', '3', '-2', '4']))),
            (2, 'partial', lambda: '(%s %s %s)' % (self.atom(d - 1), r.choice(['div', 'mod']), self.atom(d - 1))),
            (2, 'ite', lambda: 'if %s then %s else %s endif' % (self.bools(d - 1), self.ints(d - 1), self.ints(d - 1))),
            (1, 'ite', lambda: 'if %s then %s elseif %s then %s else %s endif' % (self.bools(d - 1), self.ints(d - 1), self.bools(d - 1), self.ints(d - 1), self.ints(d - 1))),
            (1.5, 'let', lambda: self.letint(d)),
            (1.5, None, lambda: 'bool2int(%s)' % self.bools(d - 1)),
            (2, 'arr', lambda: 'a[%s]' % self.aidx(d - 1)),
            (1, 'arr', lambda: 'w[%s]' % self.widx(d - 1)),
            (1, 'arr', lambda: '[%s,%s,%s][%s]' % (self.ints(d - 1), self.const(), self.ints(d - 2), self.jidx(d - 1))),
            (1, 'arr2', lambda: r.choice(['a', 'w', 'a'])+ '[ix[%s]]' % r.choice(['j', 'j-1', 'j-2', 'i', 'x', 'k', '(3-j)', 'j+1'])),
            (.5, 'arr2', lambda: 'a[a[%s]]' % self.ints(0)),
            (.7, 'arr2', lambda: 'm[%s,%s]' % (r.choice(['j', '1', 'j-1', self.ints(0)]), r.choice(['j-1', 'i', '0', self.ints(0)]))),
            (.5, 'arr2', lambda: 'a[m2[%s,%s]]' % (r.choice(['j-1', 'bool2int(b)', self.ints(0)]), r.choice(['j', 'i', '2']))),
            (.7, 'arr2', lambda: 'array2d(%s,[%s,%s,%s,%s])[%s,%s]' % (r.choice(['1..2,1..2', '0..1,1..2', '1..2,-1..0']), self.ints(d - 1), self.ints(d - 2), self.ints(0), self.const(), r.choice(['j', 'j-1', 'i', 'bool2int(b)', '1', self.ints(0)]), r.choice(['j', 'j-2', 'k', '1', '0']))),
            (.5, 'arr2', lambda: 'array1d(%s,[%s,%s,%s])[%s]' % (r.choice(['0..2', '-1..1', '1..3', '2..4']), self.ints(d - 1), self.ints(d - 2), self.ints(0), r.choice(['j', 'j-1', 'k', 'i', self.ints(0)]))),
            (.5, 'arr2', lambda: '(if n > 1 then a else [x,y,z,%s] endif)[%s]' % (self.ints(0), r.choice(['j', 'i', self.ints(0)])) if self.p % 4 == 0 else '[%s | v5 in %s][%s]' % (self.ints(0), r.choice(['1..3', '0..2', 'S']), r.choice(['j', 'i']))),
            (.4, 'arr2', lambda: '%s(m[%s,..])' % (r.choice(['sum', 'max', 'min']), r.choice(['1', '2']))),
            (.4, 'arr2', lambda: '%s(m[..,%s])' % (r.choice(['sum', 'max', 'min']), r.choice(['0', '1', '2']))),
            (1.5, 'agg', lambda: '%s([%s,%s,%s])' % (r.choice(['sum', 'min', 'max']), self.ints(d - 1), self.ints(d - 1), self.ints(d - 2))),
            (1.5, 'comp', lambda: self.compint(d)),
            (1, 'agg', lambda: 'count(%s,%s)' % (self.iarr(d), self.ints(d - 1))),
            (2, 'set', lambda: 'card(%s)' % self.sets(d - 1)),
        ])()

    def atom(self, d):
        return '(%s)' % self.ints(d) if d > 0 else self.ivar()

    def aidx(self, d):
        return self.ints(d) if 'partial' in self.f else ['j', '(j-1)', '(j-2)', '(j+1)'][self.p % 4]

    def widx(self, d):
        return self.ints(d) if 'partial' in self.f else self.r.choice(['j', '(j+1)', '(i mod 4 + 1)', '2'])

    def jidx(self, d):
        return self.ints(d) if 'partial' in self.f else 'j'

    def iarr(self, d):
        return self.r.choice(['a', '[%s | v in 1..3]' % self.ints(0), '[x,y,z]', '[x,y,2,x]'])

    def letint(self, d):
        n = self.nm()
        r = self.r
        if r.random() < .5:
            e = self.ints(d - 1)
            self.loc.append(n)
            body = self.ints(d - 1)
            self.loc.pop()
            if not re.search(r'\b(x|y|z|i|j|k|a|m|b|c|d|s|t)\b', body):
                body += ' + ' + n      # a let with only fixed parts is a parameter expression
            dm = '-9..9' if 'partial' in self.f and r.random() < .3 else 'int'
            return '(let { var %s: %s = %s } in (%s))' % (dm, n, e, body)
        e = self.bools(d - 1)
        if 'partial' in self.f:
            return '(let { constraint %s } in (%s + %s))' % (e, r.choice('xyz'), self.ints(d - 1))
        return '(let { var bool: %s = %s } in (bool2int(%s) + %s))' % (n, e, n, self.ints(d - 1))

    def compint(self, d):
        n = self.nm()
        r = self.r
        op = r.choice(['sum', 'sum', 'max', 'min'])
        g = r.choice(['1..2', '0..1', '{1,3}', '1..2+1'])
        wh = r.choice(['', '', ' where %s != 1' % n, ' where %s mod 2 = 1' % n]) if op == 'sum' else ''
        self.loc.append(n)
        body = self.ints(d - 1)
        self.loc.pop()
        return '%s(%s in %s%s)(%s)' % (op, n, g, wh, body)

    def bvar(self):
        return self.r.choice(['b', 'c'])

    def cmp(self, d):
        return '%s %s %s' % (self.ints(d), self.r.choice(['<', '<=', '=', '!=', '>', '>=', '=', '<=']), self.ints(d))

    def bools(self, d):
        r = self.r
        if d <= 0:
            return self.ch([(4, None, lambda: '%s %s %s' % (self.ivar(), r.choice(['<', '<=', '=', '!=', '>', '>=']), self.ints(0))),
                            (1.5, None, self.bvar), (.1, None, lambda: r.choice(['true', 'false'])),
                            (1, 'arr', lambda: 'bb[%s]' % ('j' if 'partial' not in self.f else self.ivar())),
                            (2, 'set', lambda: '%s in %s' % (self.ivar(), self.svar()))])()
        return self.ch([
            (5, None, lambda: self.cmp(d - 1)),
            (4, None, lambda: '(%s %s %s)' % (self.bools(d - 1), r.choice(['/\\', '\\/', '->', '<->', 'xor', '<-', '/\\', '\\/']), self.bools(d - 1))),
            (2, None, lambda: 'not (%s)' % self.bools(d - 1)),
            (1, None, lambda: '%s in %s' % (self.ints(d - 1), r.choice(['{0,2,5}', '1..3', '{-1,1}', '{3}', '-2..2', '{}']))),
            (.7, None, lambda: '(%s) %s (%s)' % (self.bools(d - 1), r.choice(['=', '!=', '<', '<=', '>', '>=']), self.bools(d - 1))),
            (1.5, 'ite', lambda: 'if %s then %s else %s endif' % (self.bools(d - 1), self.bools(d - 1), self.bools(d - 1))),
            (1, 'let', lambda: self.letbool(d)),
            (1.5, 'agg', lambda: '%s([%s,%s,%s])' % (r.choice(['forall', 'exists', 'xorall', 'iffall', 'clausep']).replace('clausep', 'exists'), self.bools(d - 1), self.bools(d - 1), self.bools(d - 2))),
            (1, 'comp', lambda: self.compbool(d)),
            (2, 'set', lambda: '%s %s %s' % (self.sets(d - 1), r.choice(['subset', 'superset', '=', '!=', '<=', '<']), self.sets(d - 1))),
            (1, 'set', lambda: '%s in %s' % (self.ints(d - 1), self.sets(d - 1))),
        ])()

    def letbool(self, d):
        n = self.nm()
        e = self.ints(d - 1)
        self.loc.append(n)
        body = self.bools(d - 1)
        self.loc.pop()
        if not re.search(r'\b(x|y|z|i|j|k|a|m|b|c|d|s|t)\b', body):
            body += ' \\/ %s > 2' % n
        return '(let { var int: %s = %s } in (%s))' % (n, e, body)

    def compbool(self, d):
        n = self.nm()
        g = self.r.choice(['1..2', '0..2', '{1,3}', 'S'])
        self.loc.append(n)
        body = self.bools(d - 1)
        self.loc.pop()
        return '%s(%s in %s)(%s)' % (self.r.choice(['forall', 'exists']), n, g, body)

    def svar(self):
        return self.r.choice(['s', 't', 'u'])

    def sets(self, d):
        r = self.r
        if d <= 0:
            return self.ch([(5, None, self.svar), (1, None, lambda: r.choice(['{1,3}', '1..2', '{}', '{0,2,5}', 'S']))])()
        return self.ch([
            (3, None, self.svar),
            (4, None, lambda: '(%s %s %s)' % (self.sets(d - 1), r.choice(['union', 'intersect', 'diff', 'symdiff']), self.sets(d - 1))),
            (1, None, lambda: '{%s,%s}' % (self.ivar(), self.ints(0))),
            (1, 'comp', lambda: '{v6 + 1 | v6 in %s}' % self.svar()),
            (.7, 'ite', lambda: 'if %s then %s else %s endif' % (self.bools(0), self.sets(d - 1), self.sets(d - 1))),
        ])()


def lin(r, terms=None):
    v = r.sample(['x', 'y', 'z', 'x', 'y'], r.choice([1, 2, 2, 2, 3]))
    ts = ' + '.join('%d*%s' % (r.choice([1, 1, -1, -1, 2, -2, 3, -3, 4, 0]), n) for n in v)
    rhs = r.choice([str(r.randint(-9, 9)), str(r.randint(-9, 9)), '%s + %d' % (r.choice('xyz'), r.randint(-3, 3)), '%d*%s' % (r.choice([1, 2, -2]), r.choice('xyz'))])
    return '%s %s %s' % (ts, r.choice(['<=', '<=', '=', '!=', '>=', '<', '>']), rhs)


def multi(seed, feats, p):
    """several constraint items over the same variables in random order: aliases, fixed values, bounds, linear constraints, definitions, reified copies"""
    r = random.Random('multi-%s' % seed)
    R = Rand('m-%s' % seed, feats, p)
    items = []
    alias = [lambda: '%s = %s' % tuple(r.sample('xyz', 2)), lambda: '%s = %s + %d' % (*r.sample('xyz', 2), r.randint(-2, 2)), lambda: '%s = -%s' % tuple(r.sample('xyz', 2)),
             lambda: '%s = %s' % tuple(r.sample('bcd', 2)), lambda: '%s = not %s' % tuple(r.sample('bcd', 2)), lambda: '%s != %s' % tuple(r.sample('bcd', 2)), lambda: '%s = bool2int(%s)' % (r.choice('xyz'), r.choice('bcd')),
             lambda: '%s -> %s' % tuple(r.sample('bcd', 2)), lambda: '%s <-> %s' % tuple(r.sample('bcd', 2))]
    bound = [lambda: '%s %s %d' % (r.choice('xyz'), r.choice(['<=', '>=', '!=', '=', '<', '>']), r.randint(-3, 4)), lambda: '%s in %s' % (r.choice('xyz'), r.choice(['{0,2,3}', '-1..2', '{1,4}', '{2}', '0..3'])),
             lambda: r.choice(['b', 'not b', 'c', 'not c'])]
    reif = [lambda: '%s <-> (%s)' % (r.choice('bcd'), lin(r)), lambda: '%s -> %s' % (r.choice('bcd'), lin(r)), lambda: '%s -> %s' % (lin(r), r.choice('bcd')), lambda: '%s <-> %s = %d' % (r.choice('bcd'), r.choice('xyz'), r.randint(-2, 4)),
            lambda: '%s \\/ %s' % (lin(r), lin(r)), lambda: '%s <-> %s in %s' % (r.choice('bcd'), r.choice('xyz'), r.choice(['{0,2,3}', '-1..2', '{1,4}', '{2}']))]
    items.append(lin(r))
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        items.append(r.choice(r.choice([alias, alias, bound, reif, [lambda: lin(r)]]))())
    post = ''
    if r.random() < .6:
        c = r.choice(CTX)
        e = R.bools(1)
        post = c[1] % e
    r.shuffle(items)
    con = ' '.join('constraint %s;' % i for i in items)
    if r.random() < .25:
        n = r.choice('xyz')
        d9, x9 = r.choice(['int', '-9..9', '0..5']), R.ints(1)
        con += ' var %s: e9 = %s; constraint %s;' % (d9 if re.search('[xyz]', x9.replace('max', '')) else 'int', x9, r.choice(['e9 = %s' % n, '2*e9 + %s <= 3' % n, 'e9 != %s' % n, 'b <-> e9 > %s' % n]))
    return model(con + ' ' + post if r.random() < .6 else post + ' ' + con, p)


def fixed(seed, p):
    """constraints of many kinds over the same variables, in which most variables are fixed (directly or by propagation)
    before or after the constraint that mentions them: what remains is a constraint over one or two variables"""
    r = random.Random('fixed-%s' % seed)
    q = IPROF[p % len(IPROF)]

    def val(v):
        t = q[v]
        if t[0] == '{':
            return r.choice(t[1:-1].split(','))
        lo, hi = map(int, t.split('..'))
        return str(r.randint(lo, hi))
    keep = r.choice('xyz')
    fx = []
    for v in 'xyz':
        if v != keep or r.random() < .1:
            w = val(v)
            fx.append(r.choice(['%s = %s', '%s = %s', '%s = %s', '%s in {%s}', '2*%s = 2*%s', '%s + i = %s + i', '%s - 1 = %s - 1', '%s <= %s /\\ b']) % (v, w))
    if r.random() < .3:
        fx.pop()
    ops = ['<=', '<=', '=', '!=', '>=', '<', '>']

    def full():
        cs = [r.choice([1, -1, 2, -2, 3, -3, 4, -5, 7]) for _ in 'xyz']
        vs = list('xyz')
        r.shuffle(vs)
        n = r.choice([1, 2, 3, 3])
        ts = ['%d*%s' % (c, v) for c, v in zip(cs, [keep] + [v for v in vs if v != keep])][:n]
        r.shuffle(ts)
        return '%s %s %d' % (' + '.join(ts), r.choice(ops), r.randint(-12, 12))

    def cons():
        k = r.randrange(12)
        x, y, z = r.sample('xyz', 3)
        b, c, d = r.sample('bcd', 3)
        if k < 6:
            return full()
        op = r.choice(ops)
        if k == 6:
            return '%s*%s %s %s' % (x, y, op, r.choice([z, '2', '-4', '0']))
        if k == 7:
            return r.choice(['max(%s,%s) %s %s', 'min(%s,%s) %s %s', 'max([%s,%s,1]) %s %s']) % (x, y, op, z)
        if k == 8:
            return 'abs(%s - %s) %s %s' % (x, y, op, r.choice([z, '2', '3']))
        if k == 9:
            return '%s div %s %s %s' % (x, r.choice(['2', '-2', '3']), op, r.choice([y, '1', '-1']))
        if k == 10:
            return '%s mod %s %s %s' % (x, r.choice(['2', '-2', '3']), op, r.choice([y, '1', '-1']))
        return 'bool2int(%s) + bool2int(%s) + %s %s %s' % (b, c, x, op, y)

    def item():
        b, c, d = r.sample('bcd', 3)
        k = r.randrange(9)
        if k < 4:
            return cons()
        t = r.choice(['%s <-> %s', '%s -> %s', '%s -> not (%s)', 'not (%s <-> %s)']) if k < 7 else '%s \\/ %s'
        return t % (b, cons())
    its = [item() for _ in range(r.choice([1, 1, 2]))]
    bl = [r.choice(['b', 'not b', 'c', 'not c', 'd', 'not d', 'b -> c', 'c = d', 'b \\/ c', 'not (b /\\ c)', 'b != d']) for _ in range(r.choice([0, 1, 1, 2]))]
    al = its + fx + bl
    r.shuffle(al)
    return model(' '.join('constraint %s;' % t for t in al), p)


def clique(seed, p):
    """integer variables tied by x = A*y + B, with reified comparisons, holes and set membership on either side, values chosen on and off the grid"""
    r = random.Random('clique-%s' % seed)
    x, y, z = r.sample('xyz', 3)
    A = r.choice([2, 2, 3, -2, -3, -1, 4, 1])
    B = r.choice([0, 0, 1, -1, 2, 3])
    it = [r.choice(['%s = %d*%s + %d' % (x, A, y, B), '%s = %d*%s + %d' % (x, A, y, B), '2*%s = %d*%s + %d' % (x, r.choice([3, 1, -3]), y, r.choice([0, 1, 2, 4])), '%s + %d*%s = %d' % (x, -A, y, B)])]
    if r.random() < .3:
        it.append('%s = %d*%s + %d' % (z, r.choice([1, -1, 2, -2]), r.choice([x, y]), r.choice([0, 1, -2])))
    for _ in range(r.choice([2, 2, 3, 4])):
        v = r.choice([x, x, y])
        c = r.choice('bcd')
        n = r.randint(-6, 8)
        s = r.choice(['{%d,%d,%d}' % (n, n + 1, n + 3), '{%d,%d}' % (n, n + 2), '%d..%d' % (n, n + 2)])
        it.append(r.choice(['%s <-> %s = %d' % (c, v, n), '%s <-> %s = %d' % (c, v, n), '%s <-> %s <= %d' % (c, v, n), '%s <-> %s >= %d' % (c, v, n), '%s <-> %s < %d' % (c, v, n), '%s -> %s = %d' % (c, v, n), '%s -> %s != %d' % (c, v, n),
                            '%s != %d' % (v, n), '%s <-> %s in %s' % (c, v, s), '%s -> %s in %s' % (c, v, s), '%s <-> %s != %d' % (c, v, n), '%s -> %s <= %d' % (c, v, n), '%s -> %s > %d' % (c, v, n)]))
    if r.random() < .3:
        it.append(r.choice(['b \\/ c', 'c -> d', 'not (b /\\ d)', 'b + c + d >= 1']))
    r.shuffle(it)
    return model(' '.join('constraint %s;' % t for t in it), p, extra={'x': 'var %s: x;' % r.choice(['-6..8', '0..8', '-5..5', '{-3,0,1,4,6}']), 'y': 'var %s: y;' % r.choice(['-3..4', '0..4', '{-2,0,1,3}']), 'z': 'var -7..7: z;'})
