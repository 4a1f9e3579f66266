"""Specification language.  A contract clause is a Python thunk over a spec object S; the same clause text is
evaluated (a) symbolically, giving the logical formula that is assumed or proved, and (b) concretely over Python
integers and Fractions, giving the oracle for replaying candidate inputs on the compiled code.

Rational values: S.val(F(n,d)) denotes n/d.  A clause that mentions S.val of a fraction holds trivially when that
fraction's denominator is zero (every contract states definedness in a clause of its own)."""
from fractions import Fraction
import math
import re
import z3
import poly
import softfp

INTS = {
    'int': (32, True), 'long': (64, True), 'long long': (64, True), 'short': (16, True), 'unsigned short': (16, False), 'signed char': (8, True),
    'unsigned int': (32, False), 'unsigned long': (64, False), 'unsigned long long': (64, False), 'char': (8, True),
    'bool': (8, False), 'unsigned char': (8, False),
}
CANON = {'unsigned': 'unsigned int', 'std::intmax_t': 'long', 'intmax_t': 'long', 'std::size_t': 'unsigned long',
         'unsigned long long int': 'unsigned long long', 'long long int': 'long long', 'long int': 'long',
         'unsigned long int': 'unsigned long'}


def canon_type(t):
    t = t.strip()
    return CANON.get(t, t)


def width(T):
    return INTS[T][0]


def signed(T):
    return INTS[T][1]


def tmax(T):
    w, s = INTS[T]
    return 2 ** (w - 1) - 1 if s else 2 ** w - 1


def tmin(T):
    w, s = INTS[T]
    return -2 ** (w - 1) if s else 0


class F:
    """raw components of a fraction"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __repr__(self):
        return '%s/%s' % (self.n, self.d)


class M:
    """components of a mixed number"""
    __slots__ = ('w', 'f')

    def __init__(self, w, f):
        self.w, self.f = w, f

    def __repr__(self):
        return '%s+%r' % (self.w, self.f)


class Str:
    """a character sequence: positions [lo, hi) of the object o"""
    __slots__ = ('o', 'lo', 'hi')

    def __init__(self, o, lo, hi):
        self.o, self.lo, self.hi = o, lo, hi


class Undef(Exception):
    pass


class SpecBase:
    def fits(self, T, x):
        """x is in the symmetric range of T (the most negative value of a signed type excluded)"""
        return self.And(-tmax(T) <= x if signed(T) else 0 <= x, x <= tmax(T))

    def infull(self, T, x):
        return self.And(tmin(T) <= x, x <= tmax(T))

    def ffits(self, T, f):
        return self.And(self.fits(T, f.n), self.fits(T, f.d))

    def defined(self, f):
        return f.d != 0


class SpecConc(SpecBase):
    conc = True

    def text_is(self, res, parts):
        return res == ''.join(str(p) for p in parts)

    def read(self, x, T):
        """(reading succeeds, numerator, denominator, what is left)"""
        import streams
        r = streams.read(x, T)
        return (False, 0, 0, '') if r is None else (True,) + r

    def left(self, res, rest):
        return res == rest

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def abs(self, a):
        return abs(a)

    def gcd(self, a, b):
        return math.gcd(a, b)

    def lcm(self, a, b):
        return abs(a * b) // math.gcd(a, b) if a and b else 0

    def lcof(self, a, b):
        """u with lcm(a,b) = a*u"""
        return self.lcm(a, b) // a if a else 0

    def coprime(self, a, b):
        return math.gcd(a, b) == 1

    def red(self, f):
        if f.d == 0:
            return F(0, 0)
        g = math.gcd(f.n, f.d)
        return F(f.n // g, f.d // g)

    def redn(self, f):
        r = self.red(f)
        return F(-r.n, -r.d) if r.d < 0 else r

    def tdiv(self, a, b):
        if b == 0:
            raise Undef()
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    def trem(self, a, b):
        return a - self.tdiv(a, b) * b

    def val(self, f):
        if f.d == 0:
            raise Undef()
        return Fraction(f.n, f.d)

    def tquot(self, l, r):
        """quotient of two rational values truncated toward zero"""
        if l.d == 0 or r.d == 0 or r.n == 0:
            raise Undef()
        return Fraction(self.tdiv(l.n * r.d, l.d * r.n))

    def num(self, x):
        return Fraction(x)

    def pow(self, b, e):
        if e < 0:
            return 1        # unspecified; clauses guard it
        if abs(b) <= 1:
            return b if b == 1 or e % 2 else b * b if e else 1
        return b ** min(e, 4096)

    def ctz(self, x):
        if x <= 0:
            return 0, x
        z = (x & -x).bit_length() - 1
        return z, x >> z

    def udiv(self, x, c):
        return x // c

    def umod(self, x, c):
        return x % c

    def rn(self, k, x):
        return softfp.encode(k, Fraction(x))

    def fdiv(self, k, a, b):
        y = softfp.decode(k, b)
        if y == 0:
            return -1
        return softfp.encode(k, softfp.decode(k, a) / y)

    def isnan(self, k, b):
        return softfp.isnan(k, b)

    def hint(self, *a):
        pass

    # character sequences (Python strings)
    def lit(self, s, b):
        """the sequence is a floating-point literal of base b"""
        return strs.cparse(s, b) is not None

    def form(self, s, c):
        b = 16 if len(s) > 2 and s[:2] in ('0x', '0X') else 10
        return b == c.b and ('.' in s[2 if b == 16 else 0:]) == c.dot

    def shape(self, s, c):
        """the sequence is a literal of shape c"""
        return strs.cmatch(s, c) is not None

    def parts(self, s, c):
        p = strs.cmatch(s, c)
        if p is None:
            raise Undef()
        return p

    def digits(self, s, b):
        return re.fullmatch(strs.D if b == 10 else strs.H, s) is not None

    def digitval(self, s, b):
        return int(s.replace("'", ''), b) if s else 0

    def strlen(self, s):
        return len(s)

    def eval(self, thunk):
        try:
            return bool(thunk())
        except Undef:
            return True


def both_ints(*xs):
    return all(isinstance(x, int) for x in xs)


class Rat:
    """a rational as a pair of integer terms (denominator assumed non-zero by the clause guard)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=1):
        self.n, self.d = n, d

    @staticmethod
    def lift(x):
        if isinstance(x, Rat):
            return x
        if isinstance(x, Fraction):
            return Rat(x.numerator, x.denominator)
        return Rat(x, 1)

    def __add__(self, o):
        o = Rat.lift(o)
        if isinstance(self.d, int) and self.d == 1:
            return Rat(self.n * o.d + o.n, o.d)
        if isinstance(o.d, int) and o.d == 1:
            return Rat(self.n + o.n * self.d, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)
    __radd__ = __add__

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-Rat.lift(o))

    def __rsub__(self, o):
        return Rat.lift(o) + (-self)

    def __mul__(self, o):
        o = Rat.lift(o)
        return Rat(self.n * o.n, self.d * o.d)
    __rmul__ = __mul__

    def _diff(self, o):
        o = Rat.lift(o)
        if isinstance(o.d, int) and o.d == 1:
            return Rat(self.n - o.n * self.d, self.d)
        return Rat(self.n * o.d - o.n * self.d, self.d * o.d)

    def _cmp(self, o):
        x = self._diff(o)
        if isinstance(x.d, int) and x.d > 0:
            return x.n
        return x.n * x.d

    def __eq__(self, o):
        return self._diff(o).n == 0

    def __ne__(self, o):
        return z3.Not(self._diff(o).n == 0)

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0
    __hash__ = None


class Fm:
    """a formula in the two encodings of rational values: o (opaque VAL) and u (cross-multiplied)"""
    __slots__ = ('o', 'u')

    def __init__(self, o, u=None):
        self.o = o
        self.u = o if u is None else u


VAL = z3.Function('VAL', z3.IntSort(), z3.IntSort(), z3.RealSort())
TQ = z3.Function('TQ', z3.RealSort(), z3.RealSort(), z3.RealSort())
COP = z3.Function('COP', z3.IntSort(), z3.IntSort(), z3.BoolSort())
UFNAMES = ['VAL', 'COP', 'POW', 'TQ'] + ['%s_%s' % (a, k) for a in ('RN', 'FDIV', 'ISNAN', 'FP_fadd', 'FP_fsub', 'FP_fmul', 'FP_frem', 'FP_neg') for k in softfp.FMT]
POWF = z3.Function('POW', z3.IntSort(), z3.IntSort(), z3.IntSort())
_Z = z3.IntSort()
CHF = z3.Function('CH', _Z, _Z)
DSF = z3.Function('DS', _Z, _Z, _Z, z3.BoolSort())
NUMF = z3.Function('NUM', _Z, _Z, _Z, _Z)
CNTF = z3.Function('CNT', _Z, _Z, _Z)
FINDF = z3.Function('FIND', _Z, _Z, _Z, _Z)
UFNAMES += ['CH', 'DS', 'NUM', 'CNT', 'FIND']


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def I(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class SpecSym(SpecBase):
    """symbolic spec evaluation inside a verification unit"""
    conc = False

    def __init__(self, unit):
        self.u = unit
        self.mode = 'o'
        self.dens = []

    def text_is(self, res, parts):
        import streams
        return streams.text_is(res.items, parts) if res.state is None else False

    def read(self, x, T):
        import streams
        s1, n, _ = x.step(0, 'extract', T)
        s2 = x.step(s1, ('ignore', streams.UNLIMITED, 47))[0]
        s3, d, ok = x.step(s2, 'extract', T)
        return ok == 1, n, d, s3

    def left(self, res, rest):
        return res.state == rest

    def And(self, *a):
        return z3.And(*[B(x) for x in a])

    def Or(self, *a):
        return z3.Or(*[B(x) for x in a])

    def Not(self, a):
        return z3.Not(B(a))

    def Implies(self, a, b):
        return z3.Implies(B(a), B(b))

    def Iff(self, a, b):
        return B(a) == B(b)

    def If(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, Rat) or isinstance(b, Rat):
            a, b = Rat.lift(a), Rat.lift(b)
            return Rat(z3.If(c, I(a.n), I(b.n)), z3.If(c, I(a.d), I(b.d)))
        if isinstance(a, F):
            return F(self.If(c, a.n, b.n), self.If(c, a.d, b.d))
        if isinstance(a, int):
            a = I(a)
        if isinstance(b, int):
            b = I(b)
        return z3.If(c, a, b)

    def abs(self, a):
        if isinstance(a, Rat):
            return Rat(self.abs(a.n), self.abs(a.d))
        if isinstance(a, int):
            return abs(a)
        return z3.If(a >= 0, a, -a)

    def gcd(self, a, b):
        return self.u.gcd(a, b).g

    def lcm(self, a, b):
        return self.u.gcd(a, b).lcm()

    def lcof(self, a, b):
        return self.u.gcd(a, b).lcof(0)

    def coprime(self, a, b):
        return self.u.coprime(a, b)

    def red(self, f):
        if both_ints(f.n, f.d):
            return SpecConc().red(f)
        return self.u.red(f)

    def redn(self, f):
        r = self.red(f)
        if both_ints(r.n, r.d):
            return SpecConc().redn(f)
        neg = r.d < 0
        return F(z3.If(neg, -I(r.n), I(r.n)), z3.If(neg, -I(r.d), I(r.d)))

    def tdiv(self, a, b):
        return self.u.divmod(a, b)[0]

    def trem(self, a, b):
        return self.u.divmod(a, b)[1]

    def val(self, f):
        self.dens.append(f.d)
        if self.mode == 'u':
            return Rat(f.n, f.d)
        if both_ints(f.n, f.d) and f.d:
            return z3.RealVal(Fraction(f.n, f.d))
        if isinstance(f.d, int) and f.d == 1:
            return z3.ToReal(f.n)
        return self.u.VAL(I(f.n), I(f.d))

    def tquot(self, l, r):
        self.dens += [l.d, r.d, r.n]
        if self.mode == 'u':
            return Rat(self.u.divmod(l.n * r.d, l.d * r.n)[0])
        return TQ(self.val(l), self.val(r))

    def num(self, x):
        if self.mode == 'u':
            return Rat.lift(x)
        if isinstance(x, Fraction) or isinstance(x, int):
            return z3.RealVal(x)
        return z3.ToReal(x)

    def pow(self, b, e):
        return self.u.pow(b, e)

    def ctz(self, x):
        return self.u.ctz(I(x))

    def udiv(self, x, c):
        return I(x) / c

    def umod(self, x, c):
        return I(x) % c

    def rn(self, k, x):
        return self.u.rn(k, x)

    def fdiv(self, k, a, b):
        return self.u.fdiv(k, a, b)

    def isnan(self, k, b):
        return self.u.isnan(k, b)

    def hint(self, name, *a):
        self.u.hint(name, *a)

    # character sequences
    def ch(self, s, i):
        return self.u.strs.ch(i)

    def ds(self, s, b, lo, hi):
        return self.u.strs.ds(b, lo, hi)

    def find(self, s, c, lo, hi):
        return self.u.strs.find(c, lo, hi)

    def lit(self, s, b):
        return z3.Or([self.shape(s, c) for c in strs.cases(b)])

    def form(self, s, c):
        hx = strs.hexform(self, s)
        dot = self.find(s, strs.DOT, s.lo + (2 if c.b == 16 else 0), s.hi) < s.hi
        return z3.And(hx if c.b == 16 else z3.Not(hx), dot if c.dot else z3.Not(dot))

    def shape(self, s, c):
        return z3.And([B(x) for x in strs.split(self, s, c).conds])

    def parts(self, s, c):
        p = strs.split(self, s, c)
        T = self.u.strs
        p.W = T.num(c.b, p.st, p.w1) if c.w else z3.IntVal(0)
        p.N = T.num(c.b, p.f0, p.e) if c.f else z3.IntVal(0)
        p.prec = T.cnt(p.f0, p.e) if c.f else z3.IntVal(0)
        p.X = T.num(10, p.x0, s.hi) if p.hasexp else z3.IntVal(0)
        return p

    def digits(self, s, b):
        return self.u.strs.ds(b, s.lo, s.hi)

    def digitval(self, s, b):
        return self.u.strs.num(b, s.lo, s.hi)

    def strlen(self, s):
        return s.hi - s.lo

    def clause(self, thunk):
        """evaluate in both encodings, guarded by the definedness of every S.val used"""
        out = []
        for mode in 'ou':
            self.mode, self.dens = mode, []
            f = B(thunk())
            ds = {}
            for d in self.dens:
                if isinstance(d, int):
                    if d == 0:
                        f = z3.BoolVal(True)
                    continue
                ds[d.get_id()] = d
            g = [d != 0 for d in ds.values()]
            out.append(z3.Implies(z3.And(*g), f) if g else f)
        self.mode, self.dens = 'o', []
        return Fm(*out)


import strs  # noqa: E402  (uses the symbols above)
