"""Parser for the MiniZinc subset used by the reference interpreter.

Independent of the code under test: nothing here is taken from /repo.
AST nodes are tuples (tag, ...).
"""
import re
from fractions import Fraction

TOK = re.compile(r"""
 (?P<ws>\s+|%[^\n]*)
|(?P<float>\d+\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)
|(?P<hex>0x[0-9a-fA-F]+|0o[0-7]+|0b[01]+)
|(?P<int>\d+)
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<qid>'[^']*'|`[^`]*`)
|(?P<inv>[A-Za-z_][A-Za-z0-9_]*(?:\^-1|⁻¹)(?=\s*\())
|(?P<tiid>\$\$?[A-Za-z_][A-Za-z0-9_]*)
|(?P<id>[A-Za-z_][A-Za-z0-9_]*)
|(?P<op><->|->|<-|<=|>=|!=|==|\.\.<|<\.\.<|<\.\.|\.\.|\+\+|/\\|\\/|::|\[\||\|\]|<>|[-+*/^=<>(){}\[\],;:|.~])
""", re.X)


class ParseError(Exception):
    pass


def lex(s):
    out = []
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ParseError("lex error at %r" % s[i:i + 30])
        k = m.lastgroup
        t = m.group()
        i = m.end()
        if k == 'ws':
            continue
        if k == 'inv':
            k, t = 'id', t.replace('⁻¹', '^-1')
        out.append((k, t))
    out.append(('eof', ''))
    return out


BIN = [  # loosest to tightest: (ops, assoc)
    (('<->',), 'l'), (('->', '<-'), 'l'), (('\\/', 'xor'), 'l'), (('/\\',), 'l'),
    (('<', '>', '<=', '>=', '=', '==', '!='), 'n'),
    (('in', 'subset', 'superset'), 'n'),
    (('union', 'diff', 'symdiff'), 'l'), (('intersect',), 'l'), (('..', '<..', '..<', '<..<'), 'n'),
    (('+', '-'), 'l'), (('*', '/', 'div', 'mod'), 'l'), (('^',), 'l'),
    ('not', None), (('++',), 'l'), (('default',), 'l'),
]
KW = {'not', 'in', 'subset', 'superset', 'union', 'diff', 'symdiff', 'intersect', 'div', 'mod', 'xor', 'default',
      'then', 'else', 'elseif', 'endif', 'where', 'if', 'let', 'of', 'array', 'var', 'par', 'opt', 'set', 'list'}


class P:
    def __init__(self, s):
        self.t = lex(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def isop(self, v, k=0):
        t = self.peek(k)
        return t[0] in ('op', 'id') and t[1] == v

    def acc(self, v):
        if self.isop(v):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise ParseError("expected %r got %r (near %s)" % (v, self.peek(), ' '.join(x[1] for x in self.t[max(0, self.i - 8):self.i + 4])))

    def ident(self):
        k, t = self.peek()
        if k == 'id' and t not in KW:
            self.i += 1
            return t
        if k == 'qid':
            self.i += 1
            return t[1:-1].replace('⁻¹', '^-1') if t[1:2].isalpha() and t[1:-1] not in KW else t
        raise ParseError("identifier expected, got %r" % (self.peek(),))

    # ---- items
    def model(self):
        items = []
        while self.peek()[0] != 'eof':
            it = self.item()
            if it is not None:
                items.append(it)
            if self.peek()[0] == 'eof':
                break
            self.exp(';')
        return items

    def anns(self):
        r = []
        while self.acc('::'):
            r.append(self.postfix())
        return r

    def item(self):
        k, t = self.peek()
        if k == 'id':
            if t == 'include':
                self.i += 2
                return None
            if t == 'constraint':
                self.i += 1
                e = self.expr()
                self.anns()
                return ('constraint', e)
            if t == 'solve':
                self.i += 1
                self.anns()
                if self.acc('satisfy'):
                    return ('solve', 'satisfy', None)
                k2 = self.ident()
                return ('solve', k2, self.expr())
            if t == 'output':
                self.i += 1
                self.anns()
                return ('output', self.expr())
            if t == 'enum':
                self.i += 1
                n = self.ident()
                self.anns()
                if self.acc('='):
                    return ('enum', n, self.enumdef())
                return ('enum', n, None)
            if t in ('predicate', 'test'):
                self.i += 1
                n = self.ident()
                ps = self.params()
                self.anns()
                body = self.expr() if self.acc('=') else None
                return ('function', ('ti', t == 'predicate', False, False, ('base', 'bool'), None, None), n, ps, body)
            if t == 'function':
                self.i += 1
                ti = self.ti()
                self.exp(':')
                n = self.ident()
                ps = self.params()
                self.anns()
                body = self.expr() if self.acc('=') else None
                return ('function', ti, n, ps, body)
            if t == 'type':
                self.i += 1
                n = self.ident()
                self.exp('=')
                return ('typedef', n, self.ti())
            if self.isop('=', 1):
                n = self.ident()
                self.exp('=')
                return ('assign', n, self.expr())
        return self.decl()

    def enumdef(self):
        r = []
        while True:
            if self.acc('{'):
                while not self.acc('}'):
                    r.append(('case', self.ident()))
                    self.acc(',')
            else:
                n = self.ident()
                self.exp('(')
                e = self.expr()
                self.exp(')')
                r.append(('ctor', n, e))
            if not self.acc('++'):
                return r

    def decl(self):
        ti = self.ti()
        self.exp(':')
        n = self.ident()
        self.anns()
        e = self.expr() if self.acc('=') else None
        return ('decl', ti, n, e)

    def params(self):
        ps = []
        if not self.acc('('):
            return ps
        while not self.acc(')'):
            ti = self.ti()
            n = self.ident() if self.acc(':') else None
            self.anns()
            d = self.expr() if self.acc('=') else None
            ps.append((ti, n, d))
            self.acc(',')
        return ps

    def ti(self):
        """('ti', var, opt, set, base, dims, card)
        base: ('base',name)|('dom',expr)|('any',)|('tuple',[ti])|('record',[(ti,n)])|('named',id)
        dims: None or list of index exprs ('int' for unbounded)"""
        if self.acc('any'):
            if self.peek()[0] == 'tiid':
                self.i += 1
            return ('ti', False, False, False, ('any',), None, None)
        dims = None
        if self.isop('array') and self.isop('[', 1):
            self.i += 2
            dims = []
            while not self.acc(']'):
                if self.acc('int'):
                    dims.append(None)
                elif self.peek()[0] == 'tiid':
                    dims.append(('tiid', self.peek()[1]))
                    self.i += 1
                elif self.isop('in', 1):
                    nm = self.ident()
                    self.exp('in')
                    dims.append(('named', nm, self.expr(5)))
                else:
                    dims.append(self.expr(0))
                self.acc(',')
            self.exp('of')
        elif self.acc('list'):
            self.exp('of')
            dims = [None]
        ti = self.basti()
        if dims is not None:
            return ('ti', ti[1], ti[2], ti[3], ti[4], dims, ti[6]) if ti[5] is None else \
                ('ti', ti[1], False, False, ('nested', ti), dims, None)
        return ti

    def basti(self):
        var = False
        opt = False
        st = False
        card = None
        if self.isop('array') or self.isop('list'):
            return self.ti()
        if self.acc('var'):
            var = True
        else:
            self.acc('par')
        if self.acc('opt'):
            opt = True
        if self.acc('set'):
            st = True
            if self.acc('('):
                card = self.expr()
                self.exp(')')
            self.exp('of')
            if self.acc('var'):
                var = True
        k, t = self.peek()
        if k == 'tiid':
            self.i += 1
            return ('ti', var, opt, st, ('tiid',), None, card)
        if k == 'id' and t in ('int', 'bool', 'float', 'string', 'ann') and not self.isop('..', 1):
            self.i += 1
            return ('ti', var, opt, st, ('base', t), None, card)
        if k == 'id' and t in ('tuple', 'record') and self.isop('(', 1):
            self.i += 2
            fs = []
            while not self.acc(')'):
                f = self.ti()
                if t == 'record':
                    self.exp(':')
                    fs.append((f, self.ident()))
                else:
                    fs.append(f)
                self.acc(',')
            return ('ti', var, opt, st, (t, fs), None, card)
        e = self.expr(6)
        if e[0] == 'id':
            return ('ti', var, opt, st, ('named', e[1]), None, card)
        return ('ti', var, opt, st, ('dom', e), None, card)

    # ---- expressions
    def expr(self, lvl=0):
        if lvl == len(BIN):
            return self.unary()
        ops, assoc = BIN[lvl]
        if ops == 'not':
            if self.acc('not'):
                return ('un', 'not', self.expr(lvl))
            return self.expr(lvl + 1)
        l = self.expr(lvl + 1)
        while True:
            k, t = self.peek()
            if k in ('op', 'id') and t in ops:
                self.i += 1
                if t == '..' and (self.isop(']') or self.isop(',')):
                    l = ('bin', '..', l, None)
                    return l
                r = self.expr(lvl + 1)
                l = ('bin', '=' if t == '==' else t, l, r)
                if assoc == 'n':
                    return l
            else:
                return l

    def unary(self):
        if self.acc('-'):
            return ('un', '-', self.unary())
        if self.acc('+'):
            return self.unary()
        if self.isop('not'):
            self.i += 1
            return ('un', 'not', self.unary())
        return self.postfix()

    def postfix(self):
        e = self.atom()
        while True:
            if self.isop('['):
                self.i += 1
                ix = []
                while not self.acc(']'):
                    if self.isop('..') and (self.isop(',', 1) or self.isop(']', 1)):
                        self.i += 1
                        ix.append(('slice', None, None))
                    elif self.isop('..'):
                        self.i += 1
                        ix.append(('slice', None, self.expr()))
                    else:
                        x = self.expr()
                        if x[0] == 'bin' and x[1] == '..' and x[3] is None:
                            x = ('slice', x[2], None)
                        ix.append(x)
                    self.acc(',')
                e = ('acc', e, ix)
            elif self.isop('.') and self.peek(1)[0] in ('int', 'id', 'float'):
                self.i += 1
                k, t = self.peek()
                self.i += 1
                if k == 'float':
                    a, b = t.split('.')
                    e = ('field', ('field', e, int(a)), int(b))
                else:
                    e = ('field', e, int(t) if k == 'int' else t)
            else:
                return e

    def gens(self):
        """generator list; returns list of (pattern ids, in-expr or '=' expr, where or None)"""
        gs = []
        while True:
            names = [self.ident()] if not self.isop('_') else [self.ident()]
            while self.acc(','):
                names.append(self.ident())
            if self.acc('='):
                e = ('genassign', self.expr(0))
            else:
                self.exp('in')
                e = self.expr(0)
            w = None
            if self.acc('where'):
                w = self.expr()
            gs.append((names, e, w))
            if not self.acc(','):
                return gs

    def looks_gen(self):
        """after '(' : is this a generator call  f(i,j in S where ..)(body)?"""
        d = 0
        j = self.i
        seen = False
        while True:
            k, t = self.t[j]
            if k == 'eof':
                return False
            if t in ('(', '[', '{', '[|'):
                d += 1
            elif t in (')', ']', '}', '|]'):
                if d == 0:
                    break
                d -= 1
            elif d == 0 and k == 'id' and t == 'in':
                seen = True
            j += 1
        return seen and self.t[j][1] == ')' and self.t[j + 1][1] == '('

    def args(self):
        a = []
        while not self.acc(')'):
            if self.peek()[0] == 'id' and self.isop(':', 1):
                n = self.ident()
                self.exp(':')
                a.append(('named', n, self.expr()))
            else:
                a.append(self.expr())
            self.acc(',')
        return a

    def atom(self):
        k, t = self.peek()
        if k == 'int':
            self.i += 1
            return ('int', int(t))
        if k == 'hex':
            self.i += 1
            return ('int', int(t, 0))
        if k == 'float':
            self.i += 1
            return ('float', Fraction(t))
        if k == 'str':
            self.i += 1
            return ('str', t[1:-1])
        if k == 'op':
            if t == '(':
                self.i += 1
                if self.peek()[0] == 'id' and self.isop(':', 1) and not self.isop('::', 1):
                    fs = []
                    while not self.acc(')'):
                        n = self.ident()
                        self.exp(':')
                        fs.append((n, self.expr()))
                        self.acc(',')
                    return ('record', fs)
                e = self.expr()
                if self.isop(','):
                    es = [e]
                    while self.acc(','):
                        if self.isop(')'):
                            break
                        es.append(self.expr())
                    self.exp(')')
                    return ('tuple', es)
                self.exp(')')
                return ('paren', e)
            if t == '{':
                self.i += 1
                if self.acc('}'):
                    return ('set', [])
                e = self.expr()
                if self.acc('|'):
                    g = self.gens()
                    self.exp('}')
                    return ('comp', 'set', e, g)
                es = [e]
                while self.acc(','):
                    if self.isop('}'):
                        break
                    es.append(self.expr())
                self.exp('}')
                return ('set', es)
            if t == '[':
                self.i += 1
                if self.acc(']'):
                    return ('arr', [])
                e = self.expr()
                if self.isop(':'):
                    self.i += 1
                    pairs = [(e, self.expr())]
                    if self.acc('|'):
                        g = self.gens()
                        self.exp(']')
                        return ('icomp', pairs[0][0], pairs[0][1], g)
                    while self.acc(','):
                        if self.isop(']'):
                            break
                        i = self.expr()
                        if self.acc(':'):
                            pairs.append((i, self.expr()))
                        else:
                            pairs.append((None, i))
                    self.exp(']')
                    return ('iarr', pairs)
                if self.acc('|'):
                    g = self.gens()
                    self.exp(']')
                    return ('comp', 'arr', e, g)
                es = [e]
                while self.acc(','):
                    if self.isop(']'):
                        break
                    es.append(self.expr())
                self.exp(']')
                return ('arr', es)
            if t == '[|':
                self.i += 1
                rows = []
                if self.acc('|]'):
                    return ('arr2', [])
                while True:
                    row = []
                    if self.isop('|'):   # 3d
                        raise ParseError('3d literal')
                    while not (self.isop('|') or self.isop('|]')):
                        row.append(self.expr())
                        self.acc(',')
                    if row:
                        rows.append(row)
                    if self.acc('|]'):
                        break
                    self.exp('|')
                return ('arr2', rows)
            if t == '<>':
                self.i += 1
                return ('absent',)
        if k == 'qid' and (t[1:2].isalpha() or t[1:2] == '_') and t[1:-1] not in KW:
            k, t = 'id', t[1:-1].replace('⁻¹', '^-1')
        if k == 'id':
            if t in ('true', 'false'):
                self.i += 1
                return ('bool', t == 'true')
            if t == 'infinity':
                self.i += 1
                return ('inf',)
            if t == '_':
                self.i += 1
                return ('anon',)
            if t == 'if':
                self.i += 1
                br = []
                c = self.expr()
                self.exp('then')
                br.append((c, self.expr()))
                els = None
                while True:
                    if self.acc('elseif'):
                        c = self.expr()
                        self.exp('then')
                        br.append((c, self.expr()))
                    elif self.acc('else'):
                        els = self.expr()
                        self.exp('endif')
                        break
                    else:
                        self.exp('endif')
                        break
                return ('ite', br, els)
            if t == 'let':
                self.i += 1
                self.exp('{')
                its = []
                while not self.acc('}'):
                    if self.acc('constraint'):
                        its.append(('constraint', self.expr()))
                        self.anns()
                    else:
                        its.append(self.decl())
                    if not self.acc(','):
                        self.acc(';')
                self.exp('in')
                return ('let', its, self.expr())
            if t in KW:
                raise ParseError("unexpected keyword %s near %s" % (t, ' '.join(x[1] for x in self.t[max(0, self.i - 8):self.i + 4])))
            self.i += 1
            if self.isop('('):
                self.i += 1
                if self.looks_gen():
                    g = self.gens()
                    self.exp(')')
                    self.exp('(')
                    b = self.expr()
                    self.exp(')')
                    return ('gcall', t, g, b)
                return ('call', t, self.args())
            return ('id', t)
        raise ParseError("unexpected %r near %s" % ((k, t), ' '.join(x[1] for x in self.t[max(0, self.i - 8):self.i + 4])))


def parse(s):
    return P(s).model()


def parse_expr(s):
    p = P(s)
    e = p.expr()
    if p.peek()[0] != 'eof':
        raise ParseError('trailing %r' % (p.peek(),))
    return e


if __name__ == '__main__':
    import sys
    for it in parse(open(sys.argv[1]).read()):
        print(it)
