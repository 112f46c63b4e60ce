"""Symbolic Booleans and exact integers over z3.

Integers are either Python ints or SI objects: a z3 term together with an
interval [lo,hi] that contains every value the term can take.  In 'bv' mode the
term is a signed bit-vector just wide enough for the interval, so arithmetic is
always exact (no wrap-around); in 'int' mode it is a z3 Int (used for models
that mix integers and reals)."""
import z3
from fractions import Fraction

MODE = ['bv']
MAXW = 400


class Unsupported(Exception):
    """The reference semantics or encoding does not cover this construct."""


class SI:
    __slots__ = ('lo', 'hi', 'e')

    def __init__(self, lo, hi, e):
        self.lo, self.hi, self.e = lo, hi, e

    def __repr__(self):
        return "SI[%d..%d]" % (self.lo, self.hi)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or isinstance(x, SI)


def is_bool(x):
    return isinstance(x, bool) or isinstance(x, z3.BoolRef)


def is_float(x):
    return isinstance(x, (Fraction, z3.ArithRef))


def width(lo, hi):
    w = 1
    if lo < 0:
        w = (-lo - 1).bit_length() + 1
    if hi > 0:
        w = max(w, hi.bit_length() + 1)
    return w


def lo(x):
    return x if isinstance(x, int) else x.lo


def hi(x):
    return x if isinstance(x, int) else x.hi


def bvw(x, w):
    """x as a w-bit term (sign extended or truncated)."""
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    s = x.e.size()
    if s == w:
        return x.e
    if s < w:
        return z3.SignExt(w - s, x.e)
    return z3.Extract(w - 1, 0, x.e)


def ie(x):
    return z3.IntVal(x) if isinstance(x, int) else x.e


def mk(l, h, e):
    if l == h:
        return l
    return SI(l, h, e)


def resize(e, w):
    s = e.size()
    if s == w:
        return e
    return z3.SignExt(w - s, e) if s < w else z3.Extract(w - 1, 0, e)


def chk(l, h):
    w = width(l, h)
    if w > MAXW:
        raise Unsupported("integer too wide")
    return w


def var(name, l, h):
    """fresh integer in [l,h]; returns (SI-or-int, domain constraint)"""
    if l == h:
        return l, True
    if MODE[0] == 'int':
        e = z3.Int(name)
        return SI(l, h, e), z3.And(e >= l, e <= h)
    w = chk(l, h)
    e = z3.BitVec(name, w)
    c = []
    if l != -(1 << (w - 1)):
        c.append(e >= l)
    if h != (1 << (w - 1)) - 1:
        c.append(e <= h)
    return SI(l, h, e), (z3.And(c) if c else True)


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    l, h = lo(a) + lo(b), hi(a) + hi(b)
    if MODE[0] == 'int':
        return mk(l, h, ie(a) + ie(b))
    w = chk(l, h)
    return mk(l, h, bvw(a, w) + bvw(b, w))


def neg(a):
    if isinstance(a, int):
        return -a
    l, h = -a.hi, -a.lo
    if MODE[0] == 'int':
        return mk(l, h, -a.e)
    w = chk(l, h)
    return mk(l, h, -bvw(a, w))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    l, h = lo(a) - hi(b), hi(a) - lo(b)
    if MODE[0] == 'int':
        return mk(l, h, ie(a) - ie(b))
    w = chk(l, h)
    return mk(l, h, bvw(a, w) - bvw(b, w))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return 0
            if x == 1:
                return y
            if x == -1:
                return neg(y)
    ps = [lo(a) * lo(b), lo(a) * hi(b), hi(a) * lo(b), hi(a) * hi(b)]
    l, h = min(ps), max(ps)
    if MODE[0] == 'int':
        return mk(l, h, ie(a) * ie(b))
    w = chk(l, h)
    return mk(l, h, bvw(a, w) * bvw(b, w))


def tdiv(a, b):
    """truncating division; arbitrary but in-range value when b = 0"""
    if isinstance(b, int) and b == 0:
        return 0
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    m = max(abs(lo(a)), abs(hi(a)), 1)
    l, h = -m, m
    if lo(a) >= 0 and lo(b) > 0:
        l = 0
    if MODE[0] == 'int':
        x, y = ie(a), ie(b)
        ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
        q = ax / z3.If(ay == 0, 1, ay)
        return mk(l, h, z3.If(ay == 0, z3.IntVal(0), z3.If((x < 0) == (y < 0), q, -q)))
    w = chk(min(lo(a), lo(b)) - 1, max(hi(a), hi(b), m) + 1)
    q = bvw(a, w) / bvw(b, w)
    if not (isinstance(b, int) or b.lo > 0 or b.hi < 0):
        q = z3.If(bvw(b, w) == 0, z3.BitVecVal(0, w), q)
    return mk(l, h, resize(q, chk(l, h)))


def tmod(a, b):
    """remainder with the sign of the dividend; 0 when b = 0"""
    if isinstance(b, int) and b == 0:
        return 0
    if isinstance(a, int) and isinstance(b, int):
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    m = max(abs(lo(b)), abs(hi(b)), 1) - 1
    l = 0 if lo(a) >= 0 else -min(m, abs(lo(a)))
    h = 0 if hi(a) <= 0 else min(m, hi(a))
    if MODE[0] == 'int':
        q = tdiv(a, b)
        return mk(l, h, z3.If(ie(b) == 0, z3.IntVal(0), ie(a) - ie(b) * ie(q)))
    w = chk(min(lo(a), lo(b)) - 1, max(hi(a), hi(b)) + 1)
    r = z3.SRem(bvw(a, w), bvw(b, w))
    if not (isinstance(b, int) or b.lo > 0 or b.hi < 0):
        r = z3.If(bvw(b, w) == 0, z3.BitVecVal(0, w), r)
    return mk(l, h, resize(r, chk(l, h)))


def iabs(a):
    if isinstance(a, int):
        return abs(a)
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    return ite(lt(a, 0), neg(a), a)


def imin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    if hi(a) <= lo(b):
        return a
    if hi(b) <= lo(a):
        return b
    r = ite(le(a, b), a, b)
    if isinstance(r, SI):
        r = clip(r, min(lo(a), lo(b)), min(hi(a), hi(b)))
    return r


def imax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    if hi(a) <= lo(b):
        return b
    if hi(b) <= lo(a):
        return a
    r = ite(le(a, b), b, a)
    if isinstance(r, SI):
        r = clip(r, max(lo(a), lo(b)), max(hi(a), hi(b)))
    return r


def clip(x, l, h):
    """x, known to lie in [l,h]"""
    if isinstance(x, int):
        return x
    l, h = max(l, x.lo), min(h, x.hi)
    if l >= h:
        return l
    if MODE[0] == 'int':
        return SI(l, h, x.e)
    return SI(l, h, resize(x.e, width(l, h)))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if a is b:
        return a
    l, h = min(lo(a), lo(b)), max(hi(a), hi(b))
    if MODE[0] == 'int':
        return mk(l, h, z3.If(c, ie(a), ie(b)))
    w = chk(l, h)
    return mk(l, h, z3.If(c, bvw(a, w), bvw(b, w)))


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if hi(a) < lo(b) or hi(b) < lo(a):
        return False
    if a is b:
        return True
    if MODE[0] == 'int':
        return ie(a) == ie(b)
    w = width(min(lo(a), lo(b)), max(hi(a), hi(b)))
    return bvw(a, w) == bvw(b, w)


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    if hi(a) <= lo(b):
        return True
    if lo(a) > hi(b):
        return False
    if a is b:
        return True
    if MODE[0] == 'int':
        return ie(a) <= ie(b)
    w = width(min(lo(a), lo(b)), max(hi(a), hi(b)))
    return bvw(a, w) <= bvw(b, w)


def lt(a, b):
    return Not(le(b, a))


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    o = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        o.append(x)
    if not o:
        return True
    return o[0] if len(o) == 1 else z3.And(o)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    o = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        o.append(x)
    if not o:
        return False
    return o[0] if len(o) == 1 else z3.Or(o)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def Xor(a, b):
    return Not(Iff(a, b))


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not(c)
    if a is True:
        return Or(c, b)
    if a is False:
        return And(Not(c), b)
    if b is True:
        return Or(Not(c), a)
    if b is False:
        return And(c, a)
    return z3.If(c, a, b)


def b2i(b):
    if isinstance(b, bool):
        return 1 if b else 0
    return ite(b, 1, 0)


def indom(x, vals):
    """x in a sorted list of ints or ('rng',lo,hi)"""
    r = []
    vals = sorted(vals)
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        r.append(And(le(vals[i], x), le(x, vals[j])))
        i = j + 1
    return Or(r)


def isum(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


# ---- reals
def rv(x):
    if isinstance(x, bool) or isinstance(x, z3.BoolRef):
        x = b2i(x)
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, SI):
        if MODE[0] != 'int':
            raise Unsupported("int/float mix in bv mode")
        return z3.ToReal(x.e)
    return x


def r3(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return x


def rop(op, a, b):
    a, b = rv(a), rv(b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            return a / b if b != 0 else Fraction(0)
    if op == '*' and ((isinstance(a, Fraction) and a == 0) or (isinstance(b, Fraction) and b == 0)):
        return Fraction(0)
    x, y = r3(a), r3(b)
    return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
            '/': lambda: z3.If(y == 0, z3.RealVal(0), x / y)}[op]()


def rle(a, b):
    a, b = rv(a), rv(b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a <= b
    return r3(a) <= r3(b)


def req(a, b):
    a, b = rv(a), rv(b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    return r3(a) == r3(b)


def rite(c, a, b):
    a, b = rv(a), rv(b)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Fraction) and isinstance(b, Fraction) and a == b:
        return a
    return z3.If(c, r3(a), r3(b))
