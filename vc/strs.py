"""Character sequences of unbounded length: content as an uninterpreted function, digit sequences, digit values, first
occurrences, and the grammar of floating-point literals over them."""
import re
from fractions import Fraction
import z3
from spec import B, I, CHF, DSF, NUMF, CNTF, FINDF, Str

SEP, DOT, PLUS, MINUS, ZERO = 39, 46, 43, 45, 48
MARK = {10: (101, 69), 16: (112, 80)}


def isdig(b, c):
    d = z3.And(48 <= c, c <= 57)
    x = z3.Or(z3.And(97 <= c, c <= 102), z3.And(65 <= c, c <= 70))
    if isinstance(b, int):
        return z3.Or(d, x) if b == 16 else d
    return z3.Or(d, z3.And(b == 16, x))


def digval(c):
    return z3.If(z3.And(48 <= c, c <= 57), c - 48, z3.If(z3.And(97 <= c, c <= 102), c - 87, z3.If(z3.And(65 <= c, c <= 70), c - 55, z3.IntVal(0))))


def sm(t):
    return z3.simplify(I(t), som=True) if not isinstance(t, int) else I(t)


class Strs:
    """per-unit terms over the unit's character sequence; every fact is an instance of a lemma about the recursive
    definitions DS (digit sequence), NUM (digit value), CNT (number of digits), FIND (first occurrence)"""

    def __init__(self, u):
        self.u = u
        self.c, self.d, self.n, self.k, self.f = {}, {}, {}, {}, {}
        self.reads = ()

    def fact(self, f, *apps):
        """a fact about all the given applications, relevant where they occur"""
        self.u.fact(['ALL'] + ['@%d' % a.get_id() for a in apps], f)

    def register(self, t):
        """the term with its sequence functions known here"""
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if not z3.is_app(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            n = x.decl().name() if x.num_args() else ''
            if n == 'NUM':
                self.num(x.arg(0).as_long(), x.arg(1), x.arg(2))
            elif n == 'CNT':
                self.cnt(x.arg(0), x.arg(1))
            elif n == 'CH':
                self.ch(x.arg(0))
            st.extend(x.children())
        return t

    def ch(self, i):
        i = sm(i)
        t = CHF(i)
        if isinstance(self.reads, list):
            self.reads.append(i)
        if t.get_id() not in self.c:
            self.c[t.get_id()] = (t, i)
            self.u.keep += [t, i]
            self.fact(z3.And(-128 <= t, t <= 127), t)
        return t

    def ds(self, b, lo, hi):
        """digit sequence: digit | digit-sequence digit | digit-sequence ' digit, in base b, filling [lo, hi)"""
        bb, lo, hi = I(b), sm(lo), sm(hi)
        t = DSF(bb, lo, hi)
        if t.get_id() in self.d:
            return t
        old = [x for x in self.d.values() if z3.eq(x[1], bb) and z3.eq(x[2], lo)]
        self.d[t.get_id()] = (t, bb, lo, hi)
        self.u.keep += [t, bb, lo, hi]
        C = self.ch
        raw = lambda h: DSF(bb, lo, sm(h))
        self.fact(t == z3.And(lo < hi, isdig(b, C(hi - 1)), z3.Or(hi - 1 == lo, raw(hi - 1), z3.And(C(hi - 2) == SEP, lo < hi - 2, raw(hi - 2)))), t)
        i = z3.Int('i')
        self.fact(z3.ForAll([i], z3.Implies(z3.And(t, lo <= i, i < hi), z3.Or(isdig(b, CHF(i)), CHF(i) == SEP)), patterns=[CHF(i)]), t)
        self.fact(z3.Implies(t, isdig(b, C(lo))), t)
        for (t2, _, _, h2) in old:
            for (ta, p, tb, q) in ((t, hi, t2, h2), (t2, h2, t, hi)):
                # closure: a digit sequence up to q is, at any p inside, a digit sequence or one followed by a separator
                self.fact(z3.Implies(z3.And(tb, lo < p, p < q),
                                     z3.Or(z3.And(ta, z3.Or(isdig(b, C(p)), z3.And(C(p) == SEP, p + 1 < q))),
                                           z3.And(C(p - 1) == SEP, lo < p - 1, raw(p - 1), isdig(b, C(p))))), t, t2)
        return t

    def num(self, b, lo, hi):
        bb, lo, hi = I(b), sm(lo), sm(hi)
        t = NUMF(bb, lo, hi)
        if t.get_id() in self.n:
            return t
        old = [x for x in self.n.values() if z3.eq(x[1], bb) and z3.eq(x[2], lo)]
        self.n[t.get_id()] = (t, bb, lo, hi)
        self.u.keep += [t, bb, lo, hi]
        r = NUMF(bb, lo, sm(hi - 1))
        self.fact(z3.And(t >= 0, r >= 0, z3.Implies(lo >= hi, t == 0), z3.Implies(lo >= hi - 1, r == 0)), t)
        c = self.ch(hi - 1)
        self.fact(z3.Implies(lo < hi, t == z3.If(c == SEP, r, bb * r + digval(c))), t)
        for (t2, _, _, h2) in old:
            for (ta, p, tb, q) in ((t, hi, t2, h2), (t2, h2, t, hi)):
                self.fact(z3.Implies(p <= q, ta <= tb), t, t2)
                self.fact(z3.Implies(z3.And(lo <= p, p < q, CHF(p) != SEP), bb * ta + digval(CHF(p)) <= tb), t, t2)
        return t

    def cnt(self, lo, hi):
        lo, hi = sm(lo), sm(hi)
        t = CNTF(lo, hi)
        if t.get_id() in self.k:
            return t
        old = [x for x in self.k.values() if z3.eq(x[1], lo)]
        self.k[t.get_id()] = (t, lo, hi)
        self.u.keep += [t, lo, hi]
        r = CNTF(lo, sm(hi - 1))
        self.fact(z3.And(t >= 0, r >= 0, z3.Implies(lo >= hi, t == 0), z3.Implies(lo <= hi, t <= hi - lo)), t)
        self.fact(z3.Implies(lo < hi, t == z3.If(self.ch(hi - 1) == SEP, r, r + 1)), t)
        for (t2, _, h2) in old:
            for (ta, p, tb, q) in ((t, hi, t2, h2), (t2, h2, t, hi)):
                self.fact(z3.Implies(p <= q, ta <= tb), t, t2)
        return t

    def find(self, c, lo, hi):
        """position of the first character c in [lo, hi), hi if there is none"""
        lo, hi = sm(lo), sm(hi)
        t = FINDF(I(c), lo, hi)
        if t.get_id() in self.f:
            return t
        self.f[t.get_id()] = t
        self.u.keep += [t, lo, hi]
        i = z3.Int('i')
        self.fact(z3.Implies(lo <= hi, z3.And(lo <= t, t <= hi)), t)
        self.fact(z3.Implies(z3.And(lo <= t, t < hi), self.ch(t) == c), t)
        self.fact(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < t), CHF(i) != c), patterns=[CHF(i)]), t)
        return t


# ---------------------------------------------------------------- the grammar of floating-point literals
class Parts:
    """b base; W, N digit values of the whole and fractional parts; prec number of fractional digits; X exponent value, neg its
    sign, scale the base of the exponent"""


def hexform(S, s):
    C = S.ch
    return S.And(s.hi - s.lo > 2, C(s, s.lo) == ZERO, S.Or(C(s, s.lo + 1) == 120, C(s, s.lo + 1) == 88))


class Case:
    """one shape of literal: radix point present, which exponent mark, which sign, non-empty whole and fractional part"""

    def __init__(self, b, dot, mark, sign, w, f):
        self.b, self.dot, self.mark, self.sign, self.w, self.f = b, dot, mark, sign, w, f


def cases(b):
    out = []
    for dot in (True, False):
        for mark in (None, 0, 1):
            if mark is None and (b == 16 or not dot):
                continue
            for sign in (None, '+', '-') if mark is not None else (None,):
                for w in (True, False):
                    for f in (True, False) if dot else (False,):
                        if w or f:
                            out.append(Case(b, dot, mark, sign, w, f))
    return out


def split(S, s, c):
    """the only way the sequence can divide into whole part, radix point, fractional part and exponent, if it is a literal of
    shape c; conds: what makes it one"""
    p = Parts()
    b = p.b = c.b
    p.case = c
    p.st = s.lo + (2 if b == 16 else 0)
    p.conds = []
    dot = S.find(s, DOT, p.st, s.hi)
    fr = p.st
    if c.dot:
        p.conds.append(dot < s.hi)
        fr = dot + 1
    else:
        p.conds.append(dot >= s.hi)
    m1, m2 = S.find(s, MARK[b][0], fr, s.hi), S.find(s, MARK[b][1], fr, s.hi)
    if c.mark is None:
        p.conds += [m1 >= s.hi, m2 >= s.hi]
        p.e = s.hi
    else:
        p.e, o = (m1, m2) if c.mark == 0 else (m2, m1)
        p.conds += [p.e < s.hi, p.e < o]
    p.w1, p.f0 = (dot, dot + 1) if c.dot else (p.e, p.e)
    p.neg = c.sign == '-'
    p.hasexp = c.mark is not None
    if p.hasexp:
        nx = S.ch(s, p.e + 1)
        if c.sign is None:
            p.conds += [S.Not(nx == PLUS), S.Not(nx == MINUS)]
            p.x0 = p.e + 1
        else:
            p.conds += [p.e + 1 < s.hi, nx == (PLUS if c.sign == '+' else MINUS)]
            p.x0 = p.e + 2
        p.conds.append(S.ds(s, 10, p.x0, s.hi))
    p.conds.append(S.ds(s, b, p.st, p.w1) if c.w else p.st == p.w1)
    p.conds.append(S.ds(s, b, p.f0, p.e) if c.f else p.f0 == p.e)
    hx = hexform(S, s)
    p.conds.append(hx if b == 16 else S.Not(hx))
    return p


D, H = r"[0-9](?:'?[0-9])*", r"[0-9a-fA-F](?:'?[0-9a-fA-F])*"
DEC = re.compile(r"(?=\.?[0-9])(%s)?(?:(\.)(%s)?)?(?:[eE]([+-]?)(%s))?" % (D, D, D))
HEX = re.compile(r"0[xX](?=\.?[0-9a-fA-F])(%s)?(?:(\.)(%s)?)?[pP]([+-]?)(%s)" % (H, H, D))


def cparse(s, b):
    """concrete reading of the sequence as a literal of base b, or None"""
    m = (HEX if b == 16 else DEC).fullmatch(s)
    if not m or not (m.group(2) or m.group(5)):
        return None
    p = Parts()
    n = lambda x, bb: int(x.replace("'", ''), bb) if x else 0
    p.b, p.W, p.N, p.X = b, n(m.group(1), b), n(m.group(3), b), n(m.group(5), 10)
    p.prec = len((m.group(3) or '').replace("'", ''))
    p.neg = m.group(4) == '-'
    p.hasexp = m.group(5) is not None
    p.dot, p.w, p.f, p.sign = bool(m.group(2)), bool(m.group(1)), bool(m.group(3)), m.group(4) or None
    return p


def cmatch(s, c):
    p = cparse(s, c.b)
    if p is None:
        return None
    mk = MARK[c.b]
    mark = None
    if p.hasexp:
        mark = 0 if chr(mk[0]) in s[2 if c.b == 16 else 0:] else 1
    return p if (p.dot, mark, p.sign, p.w, p.f) == (c.dot, c.mark, c.sign, c.w, c.f) else None


# ---------------------------------------------------------------- inputs for the concrete search
def sample(r):
    """random sequences near the grammar"""
    def digs(b, k):
        al = '0123456789' if b == 10 else '0123456789abcdefABCDEF'
        n = r.choice((0, 1, 1, 2, 2, 3, 4, 6, r.randint(0, k)))
        z = r.random() < .15
        t = ''.join('0' if z and r.random() < .7 else r.choice(al) for _ in range(n))
        if r.random() < .25 and n > 1:
            i = r.randint(1, n - 1)
            t = t[:i] + "'" + t[i:]
        return t
    if r.random() < .12:
        return ''.join(r.choice("0012359aAfFxXeEpP.'+-gG/: ") for _ in range(r.randint(0, 8)))
    b = r.choice((10, 10, 16))
    s = '' if b == 10 else r.choice(('0x', '0X'))
    s += digs(b, 12 if r.random() < .9 else 20)
    if r.random() < .75:
        s += '.' + digs(b, 8)
    if r.random() < (.5 if b == 10 else .93):
        mk = ('eE' if b == 10 else 'pP') if r.random() < .96 else 'eEpP'
        x = digs(10, 2)[:4] if r.random() < .3 else str(r.randint(0, 12))
        s += r.choice(mk) + r.choice(('', '', '+', '-', '-')) + (('0' * r.choice((0, 0, 1, 3))) + x if x else x)
    k = r.random()
    if k < .25 and s:
        i = r.randint(0, len(s) - 1)
        m = r.random()
        c = r.choice("0123456789abcdefABCDEFgGxXeEpP.''+-/:@`")
        s = s[:i] + c + s[i + 1:] if m < .4 else s[:i] + c + s[i:] if m < .7 else s[:i] + s[i + 1:]
    return s
