"""Verification-condition generator: symbolic execution of LLVM IR functions over mathematical integers, with
contracts at calls and explicit obligations for every source of undefined behaviour."""
import re
import struct
import z3
import poly
from ir import IRError, PTR, ity
from spec import *
import softfp
import streams
import strs


class Outside(Exception):
    """code outside the verifier's reach"""


# ---------------------------------------------------------------- values
class IV:
    """integer of w bits; t: Python int (signed canonical) or z3 Int; sg: 's' value read as signed, 'u' unsigned"""
    __slots__ = ('w', 't', 'sg')

    def __init__(self, w, t, sg='s'):
        self.w, self.t, self.sg = w, t, sg

    def __repr__(self):
        return 'i%d:%s%s' % (self.w, self.t, self.sg)


class BV:
    """i1"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class PV:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return 'ptr(%s+%s)' % (self.o, self.off)


class AG:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs


class BN:
    """an integer register holding the bytes of several memory cells (ABI coercion of small structs)"""
    __slots__ = ('size', 'cells')

    def __init__(self, size, cells):
        self.size, self.cells = size, cells


class FV:
    """floating-point value: k in float/double/x86_fp80, t its bits as an unsigned integer"""
    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k, self.t = k, t


class UndefV:
    def __repr__(self):
        return 'undef'


UNDEF = UndefV()


class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'extra', "nul")

    def __init__(self, id, size, kind, name, extra=None):
        self.id, self.size, self.kind, self.name, self.extra = id, size, kind, name, extra

    def __repr__(self):
        return self.name


class St:
    """memory + path hypotheses"""
    __slots__ = ('mem', 'H', 'trace', 'dead', 'views', 'loops')

    def __init__(self):
        self.mem = {}
        self.H = []
        self.trace = []
        self.dead = False
        self.views = {}
        self.loops = {}

    def fork(self):
        s = St()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.H = list(self.H)
        s.trace = list(self.trace)
        s.views = dict(self.views)
        s.loops = dict(self.loops)
        return s


class Ob:
    """proof obligation"""
    __slots__ = ('name', 'kind', 'H', 'goal', 'label', 'props', 'where', 'unit')

    def __init__(self, name, kind, H, goal, label=None, props=(), unit=None):
        self.unit = unit
        self.name, self.kind, self.H, self.goal, self.label, self.props = name, kind, H, goal, label, props


_AI = {}


def szbytes(w):
    return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16


STRFNS = ('CH', 'DS', 'NUM', 'CNT', 'FIND')


def syms(t, cache={}):
    """ids of uninterpreted constants in a term"""
    r = cache.get(t.get_id())
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(i)
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                    if x.decl().name() in STRFNS:
                        out.add('@%d' % i)
                st.extend(x.children())
    out = frozenset(out)
    cache[t.get_id()] = (t, out)
    return out


class GcdView:
    def __init__(self, u, g, ca, cb, s):
        self.u, self.g, self.ca, self.cb, self.s = u, g, ca, cb, s

    def lcm(self):
        return self.s * self.g * self.ca * self.cb

    def lcof(self, i):
        return self.s * (self.cb if i == 0 else self.ca)


class Unit:
    """one function under contract: symbols, lemma instances, obligations"""

    def __init__(self, name, key=None):
        self.name = name
        self.key = key
        self.n = 0
        self.bounds = {}
        self.facts = []       # (defsyms frozenset, Fm)
        self.findex = None
        self.loopsyms = set()  # cursors introduced for loops
        self.strsyms = set()   # constants speaking of the character sequence only
        self.links = {}       # VAL app id -> list of formulas
        self.defs = poly.Defs()
        self.obs = []
        self.keep = []
        self.S = SpecSym(self)
        self.strs = strs.Strs(self)
        self.strobj = None
        self.bases = []
        self._gcd = {}
        self._div = {}
        self._red = {}
        self._redn = {}
        self._pow = {}
        self._ctz = {}
        self._fpc = {}
        self._cop = set()
        self.callees = {}
        self.inlined = set()
        self.trusted = set()
        self.counter = {}
        self.pathn = 0
        self.rets = 0
        self.inputs = []
        self.signs = []
        self.entry_measure = None
        self.pres = []

    # ---- symbols
    def fresh(self, name, lo=None, hi=None):
        self.n += 1
        v = z3.Int('%s!%d' % (name, self.n))
        self.keep.append(v)
        self.bounds[v.get_id()] = (lo, hi)
        if lo is not None:
            self.fact([v], v >= lo)
        if hi is not None:
            self.fact([v], v <= hi)
        return v

    def fact(self, defsyms, f, u=None):
        self.facts.append((frozenset(d if isinstance(d, str) else d.get_id() for d in defsyms), Fm(f, u)))

    def interval(self, t):
        if isinstance(t, int):
            return t, t
        if z3.is_int_value(t):
            v = t.as_long()
            return v, v
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 1 and t.decl().name() == 'CH':
                return -128, 127
            return self.bounds.get(t.get_id(), (None, None)) if t.num_args() == 0 else (None, None)
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in t.children():
                a, b = self.interval(c)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return lo, hi
        if k == z3.Z3_OP_SUB:
            cs = t.children()
            lo, hi = self.interval(cs[0])
            for c in cs[1:]:
                a, b = self.interval(c)
                lo, hi = (None if lo is None or b is None else lo - b), (None if hi is None or a is None else hi - a)
            return lo, hi
        if k == z3.Z3_OP_UMINUS:
            a, b = self.interval(t.children()[0])
            return (None if b is None else -b), (None if a is None else -a)
        if k == z3.Z3_OP_MUL:
            lo, hi = 1, 1
            for c in t.children():
                a, b = self.interval(c)
                if None in (a, b, lo, hi):
                    return None, None
                ps = [lo * a, lo * b, hi * a, hi * b]
                lo, hi = min(ps), max(ps)
            return lo, hi
        if k == z3.Z3_OP_ITE:
            a, b = self.interval(t.children()[1])
            c, d = self.interval(t.children()[2])
            return (None if a is None or c is None else min(a, c)), (None if b is None or d is None else max(b, d))
        if k == z3.Z3_OP_MOD and z3.is_int_value(t.children()[1]):
            m = t.children()[1].as_long()
            if m > 0:
                return 0, m - 1
        if k == z3.Z3_OP_IDIV and z3.is_int_value(t.children()[1]):
            m = t.children()[1].as_long()
            a, b = self.interval(t.children()[0])
            if m > 0 and a is not None and b is not None:
                return a // m, b // m
        return None, None

    def within(self, t, lo, hi):
        a, b = self.interval(t)
        return a is not None and b is not None and a >= lo and b <= hi

    # ---- number theory skolems.  Each block of facts is an instance of a lemma proved in lemmas/Ieme.lean
    def pkey(self, t):
        return poly.norm_sign(poly.to_poly(t, self.defs))

    def gcd(self, a, b):
        if both_ints(a, b):
            import math
            g = math.gcd(a, b)
            ca, cb = (a // g, b // g) if g else (0, 0)
            return GcdView(self, g, ca, cb, -1 if ca * cb < 0 else 1)
        a, b = I(a), I(b)
        k0 = (a.get_id(), b.get_id())
        r = self._gcd.get(k0)
        if r:
            return r
        sa, pa = self.pkey(a)
        sb, pb = self.pkey(b)
        ka, kb = poly.key(pa), poly.key(pb)
        swap = kb < ka
        key = (kb, ka) if swap else (ka, kb)
        base = self._gcd.get(key)
        if base is None:
            x, y = (b, a) if swap else (a, b)
            sx, sy = (sb, sa) if swap else (sa, sb)
            g = self.fresh('g', 0)
            cx, cy = self.fresh('cx'), self.fresh('cy')
            s = self.fresh('sg', -1, 1)
            self.signs.append(s)
            # sx*x = g*cx
            X, Y = (x if sx > 0 else -x), (y if sy > 0 else -y)
            ds = [g, cx, cy, s]
            for (v, V, c) in ((x, X, cx), (y, Y, cy)):
                self.fact(ds, V == g * c)
            for (v, c, sg) in ((x, cx, sx), (y, cy, sy)):
                if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.get_id() not in self.defs \
                        and not (syms(x) | syms(y)) & self._deps(v):
                    self.defs[v.get_id()] = (g * c) if sg > 0 else -(g * c)
            self.fact(ds, z3.Implies(z3.Or(X != 0, Y != 0), g > 0))
            self.fact(ds, z3.Implies(z3.Or(X != 0, Y != 0), COP(cx, cy)))
            self.fact(ds, z3.And((X == 0) == (cx == 0), (Y == 0) == (cy == 0), (X > 0) == (cx > 0),
                                 (Y > 0) == (cy > 0)))
            self.fact(ds, z3.Implies(X != 0, z3.And(g <= z3.If(X > 0, X, -X), z3.If(cx > 0, cx, -cx) <= z3.If(X > 0, X, -X))))
            self.fact(ds, z3.Implies(Y != 0, z3.And(g <= z3.If(Y > 0, Y, -Y), z3.If(cy > 0, cy, -cy) <= z3.If(Y > 0, Y, -Y))))
            self.fact([s], z3.And(z3.Or(s == 1, s == -1), z3.Implies(cx * cy > 0, s == 1), z3.Implies(cx * cy < 0, s == -1)))
            ab = lambda v: z3.If(v >= 0, v, -v)
            self.fact(ds, z3.Implies(g > 0, z3.And((ab(X) < ab(Y)) == (ab(cx) < ab(cy)), (ab(X) > ab(Y)) == (ab(cx) > ab(cy)))))
            self.fact(ds, z3.Implies(z3.And(X == 0, Y == 0), g == 0))
            self.fact(ds, z3.Implies(z3.And(X == 0, Y != 0), z3.And(g == z3.If(Y > 0, Y, -Y))))
            self.fact(ds, z3.Implies(z3.And(X != 0, Y == 0), z3.And(g == z3.If(X > 0, X, -X))))
            self.copsigns(cx, cy)
            for (p, q) in ((X, Y), (-X, Y), (X, -Y), (-X, -Y)):
                self.fact(ds, COP(p, q) == (g == 1))
                self.fact(ds, COP(q, p) == (g == 1))
            base = self._gcd[key] = (g, cx, cy, s)
            self.keep += [x, y]
            # uniqueness: equal (up to sign and order) arguments have equal gcds
            for (x2, y2, g2, ds2) in self._gcdargs():
                ab = lambda p, q: z3.Or(p == q, p == -q)
                self.fact(ds + [g2], z3.Implies(z3.Or(z3.And(ab(X, x2), ab(Y, y2)), z3.And(ab(X, y2), ab(Y, x2))), g == g2))
                c2 = ds2
                self.fact(ds + [g2], z3.Implies(z3.And(X == x2, Y == y2), z3.And(cx == c2[1], cy == c2[2])))
            self._ga.append((X, Y, g, ds))
        g, cx, cy, s = base
        ca, cb = (cy, cx) if swap else (cx, cy)
        if sa < 0:
            ca = -ca
        if sb < 0:
            cb = -cb
        r = GcdView(self, g, ca, cb, s if sa * sb > 0 else -s)
        self._gcd[k0] = r
        self.keep += [a, b]
        return r

    _ga = None

    def _gcdargs(self):
        if self._ga is None:
            self._ga = []
        return list(self._ga)

    def _deps(self, v):
        """symbols (transitively, through definitions) that depend on v"""
        out = set()
        ch = True
        while ch:
            ch = False
            for k, d in self.defs.items():
                if k not in out and (syms(d) & ({v.get_id()} | out)):
                    out.add(k)
                    ch = True
        return out

    def copsigns(self, a, b):
        k = (a.get_id(), b.get_id())
        if k in self._cop:
            return
        self._cop.add(k)
        c = COP(a, b)
        for (p, q) in ((-a, b), (a, -b), (-a, -b)):
            self.fact([a, b], COP(p, q) == c)
            self.fact([a, b], COP(q, p) == c)
        self.fact([a, b], COP(b, a) == c)

    def coprime(self, a, b):
        if both_ints(a, b):
            import math
            return math.gcd(a, b) == 1
        return COP(I(a), I(b))

    def red(self, f):
        n, d = I(f.n), I(f.d)
        k = (poly.key(poly.to_poly(n, self.defs)), poly.key(poly.to_poly(d, self.defs)))
        k0 = (n.get_id(), d.get_id())
        r = self._red.get(k0) or self._red.get(k)
        if r:
            return r
        g = self.gcd(n, d)
        rn, rd = self.fresh('rn'), self.fresh('rd')
        ds = [rn, rd]
        self.fact(ds, z3.Implies(d == 0, z3.And(rn == 0, rd == 0)))
        self.fact(ds, z3.Implies(d != 0, z3.And(rn == g.ca, rd == g.cb)))
        self.fact(ds, z3.Implies(d != 0, COP(rn, rd)))
        self.fact(ds, z3.And((d > 0) == (rd > 0), (d == 0) == (rd == 0), z3.Implies(d != 0, z3.And((n == 0) == (rn == 0), (n > 0) == (rn > 0)))))
        ab = lambda x: z3.If(x >= 0, x, -x)
        self.fact(ds, z3.And(ab(rn) <= ab(n), ab(rd) <= ab(d)))
        self.fact(ds, z3.Implies(d != 0, self.VAL(rn, rd) == self.VAL(n, d)), z3.BoolVal(True))
        self.copsigns(rn, rd)
        r = F(rn, rd)
        self._red[k] = self._red[k0] = r
        self.keep += [n, d]
        return r

    def redn(self, f):
        n, d = I(f.n), I(f.d)
        k = (n.get_id(), d.get_id())
        r = self._redn.get(k)
        if r:
            return r
        q = self.red(f)
        pn, pd = self.fresh('pn'), self.fresh('pd', 0)
        ds = [pn, pd]
        self.fact(ds, z3.If(q.d < 0, z3.And(pn == -q.n, pd == -q.d), z3.And(pn == q.n, pd == q.d)))
        self.fact(ds, z3.Implies(d != 0, z3.And(COP(pn, pd), pd > 0)))
        self.fact(ds, z3.Implies(d == 0, z3.And(pn == 0, pd == 0)))
        ab = lambda x: z3.If(x >= 0, x, -x)
        self.fact(ds, z3.And(ab(pn) <= ab(n), ab(pd) <= ab(d)))
        self.fact(ds, z3.Implies(d != 0, self.VAL(pn, pd) == self.VAL(n, d)), z3.BoolVal(True))
        self.copsigns(pn, pd)
        r = self._redn[k] = F(pn, pd)
        self.keep += [n, d]
        return r

    def VAL(self, n, d):
        v = VAL(n, d)
        if v.get_id() not in self.links:
            self.keep.append(v)
            self.links[v.get_id()] = [
                z3.Implies(d != 0, z3.And((v == 0) == (n == 0),
                                          (v > 0) == z3.Or(z3.And(n > 0, d > 0), z3.And(n < 0, d < 0)))),
                z3.Implies(d > 0, z3.And((v < 1) == (n < d), (v > -1) == (n > -d), (v <= -1) == (n <= -d),
                                         (2 * v < 1) == (2 * n < d))),
                z3.Implies(d < 0, z3.And((v < 1) == (n > d), (v > -1) == (n < -d), (v <= -1) == (n >= -d), (2 * v < 1) == (2 * n > d))),
                z3.Implies(d > 0, (2 * v < -1) == (2 * n < -d)), z3.Implies(d < 0, (2 * v < -1) == (2 * n > -d)),
                z3.Implies(d == 1, v == z3.ToReal(n)),
            ]
        return v

    def divmod(self, x, y):
        """truncated quotient and remainder (for y = 0: unspecified integers)"""
        if both_ints(x, y) and y:
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q, x - q * y
        x, y = I(x), I(y)
        k0 = (x.get_id(), y.get_id())
        if k0 in self._div:
            return self._div[k0]
        px, py = poly.to_poly(x, self.defs), poly.to_poly(y, self.defs)
        r = None
        K = poly.divide(px, py)
        if K is not None:
            r = (poly.to_term(K), z3.IntVal(0))
        else:
            sx, px = poly.norm_sign(px)
            sy, py = poly.norm_sign(py)
            m = poly.common(poly.content(px), poly.content(py))
            import math
            c = math.gcd(*[abs(v) for v in list(px.values()) + list(py.values())]) if py else 1
            cm = {m: c}
            if m or c != 1:
                px, py = poly.divide(px, cm), poly.divide(py, cm)
            key = ('k', poly.key(px), poly.key(py))
            qr = self._div.get(key)
            if qr is None:
                X, Y = poly.to_term(px), poly.to_term(py)
                q, rr = self.fresh('q'), self.fresh('r')
                ds = [q, rr]
                self.fact(ds, z3.Implies(Y != 0, X == Y * q + rr))
                self.fact(ds, z3.Implies(Y != 0, z3.And(z3.Implies(X >= 0, rr >= 0), z3.Implies(X <= 0, rr <= 0))))
                self.fact(ds, z3.And(z3.Implies(Y > 0, z3.And(rr < Y, -Y < rr)), z3.Implies(Y < 0, z3.And(rr < -Y, Y < rr))))
                self.fact(ds, z3.And(z3.Implies(z3.And(X >= 0, Y > 0), z3.And(q >= 0, q <= X)),
                                     z3.Implies(z3.And(X <= 0, Y < 0), z3.And(q >= 0, q <= -X)),
                                     z3.Implies(z3.And(X >= 0, Y < 0), z3.And(q <= 0, q >= -X)),
                                     z3.Implies(z3.And(X <= 0, Y > 0), z3.And(q <= 0, q >= X))))
                ab = lambda v: z3.If(v >= 0, v, -v)
                self.fact(ds, z3.Implies(Y != 0, ab(rr) <= ab(X)))
                self.fact(ds, z3.Implies(z3.And(Y != 0, rr != 0), 2 * ab(q) < ab(X)))
                self.fact(ds, z3.Implies(ab(X) < ab(Y), z3.And(q == 0, rr == X)))
                bx = self.interval(X)
                if z3.is_int_value(Y) and Y.as_long() != 0 and None not in bx:
                    mm = max(abs(bx[0]), abs(bx[1])) // abs(Y.as_long())
                    self.bounds[q.get_id()] = (0 if bx[0] >= 0 and Y.as_long() > 0 else -mm, mm)
                qr = self._div[key] = (q, rr)
            q, rr = qr
            if sx * sy < 0:
                q = -q
            if sx < 0:
                rr = -rr
            if m or c != 1:
                rr = poly.to_term(cm) * rr
            r = (q, rr)
        # x/y = q + r/y  (val_div)
        v = self.VAL(x, y)
        self.links[v.get_id()].append(z3.Implies(y != 0, v == z3.ToReal(I(r[0])) + self.VAL(I(r[1]), y)))
        self.keep += [x, y]
        self._div[k0] = r
        return r

    def pow(self, b, e):
        if both_ints(b, e) and e >= 0:
            return b ** e
        b, e = I(b), I(e)
        if self.strobj is not None:
            e = I(sm_(e))
        t = POWF(b, e)
        k = t.get_id()
        if k not in self._pow:
            self._pow[k] = (b, e, t)
            self.keep.append(t)
            ds = ['POW']
            self.fact(ds, z3.Implies(e == 0, t == 1))
            self.fact(ds, z3.Implies(e == 1, t == b))
            self.fact(ds, z3.Implies(z3.And(b == 0, e > 0), t == 0))
            self.fact(ds, z3.Implies(z3.And(b != 0, e >= 0), t != 0))
            self.fact(ds, z3.Implies(z3.And(b > 0, e >= 0), t > 0))
            self.fact(ds, z3.Implies(z3.And(b == 1, e >= 0), t == 1))
            self.fact(ds, z3.Implies(z3.And(b == -1, e >= 0), z3.Or(t == 1, t == -1)))
            if not z3.is_int_value(b):
                self.fact(ds, z3.Implies(z3.And(b != 0, e >= 1), z3.If(b >= 0, b, -b) <= z3.If(t >= 0, t, -t)))
                self.fact(ds, z3.Implies(z3.And(b != 0, e >= 2), b * b <= z3.If(t >= 0, t, -t)))
            ab = lambda v: z3.If(v >= 0, v, -v)
            for (b2, e2, t2) in list(self._pow.values())[:-1]:
                for (ba, ea, ta, bb, eb, tb) in ((b, e, t, b2, e2, t2), (b2, e2, t2, b, e, t)):
                    # pow_succ, pow_two_mul, pow_le (lemmas)
                    same = z3.BoolVal(True) if z3.eq(ba, bb) else ba == bb
                    self.fact(ds, z3.Implies(z3.And(same, ea >= 0, eb == ea + 1), tb == bb * ta))
                    self.fact(ds, z3.Implies(z3.And(same, ea >= 0, eb == 2 * ea), tb == ta * ta))
                    self.fact(ds, z3.Implies(z3.And(same, ea >= 0, eb == ea), ta == tb))
                    self.fact(ds, z3.Implies(z3.And(same, ea >= 0, eb >= ea, bb != 0), ab(ta) <= ab(tb)))
                    self.fact(ds, z3.Implies(z3.And(same, ea >= 0, eb > ea, z3.Or(bb >= 2, bb <= -2)), 2 * ab(ta) <= ab(tb)))
                    if not z3.is_int_value(ba) and not z3.is_int_value(bb):
                        # pow_double_succ, pow_succ_le, pow_sq_le, pow_square_base (lemmas)
                        self.fact(ds, z3.Implies(z3.And(same, ea >= 0, eb == 2 * ea + 1), tb == bb * (ta * ta)))
                        self.fact(ds, z3.Implies(z3.And(same, ea >= 0, eb > ea, bb != 0), ab(bb * ta) <= ab(tb)))
                        self.fact(ds, z3.Implies(z3.And(same, ea >= 0, eb >= 2 * ea, bb != 0), ta * ta <= ab(tb)))
                        if not z3.eq(ba, bb):
                            self.fact(ds, z3.Implies(z3.And(ba == bb * bb, ea >= 0, eb == 2 * ea), tb == ta))
                            self.fact(ds, z3.Implies(z3.And(ba == bb * bb, ea >= 0, eb == 2 * ea + 1), tb == bb * ta))
            if z3.is_int_value(b) and b.as_long() == 2:
                for i in range(0, 65):
                    self.fact(ds, z3.Implies(e == i, t == 2 ** i))
                self.fact(ds, z3.Implies(e >= 64, t >= 2 ** 64))
        return t

    # ---- trailing zeros: x = 2^z * odd
    def ctz(self, x):
        x = I(x)
        k = x.get_id()
        r = self._ctz.get(k)
        if r is None:
            z, odd = self.fresh('ctz', 0, 127), self.fresh('odd', 0)
            p = self.pow(2, z)
            self.fact([z, odd], z3.Implies(x > 0, z3.And(x == p * odd, odd % 2 == 1, odd >= 1, odd <= x, p <= x)))
            for (x2, z2, o2) in self._ctz.values():
                self.fact([z, odd, z2, o2], z3.Implies(x == x2, z3.And(z == z2, odd == o2)))
            self._ctz[k] = r = (x, z, odd)
            self.keep.append(x)
        return r[1], r[2]

    # ---- floating point: values are bits; conversion of an integer and division are uninterpreted (correct rounding is
    # the hardware's; what is proved is which operands reach them)
    def _fp(self, name, k, args, facts=None):
        fn = z3.Function('%s_%s' % (name, k), *([z3.IntSort()] * (len(args) + 1)))
        t = fn(*[I(a) for a in args])
        key = t.get_id()
        v = self._fpc.get(key)
        if v is None:
            v = self.fresh('fp', 0, 2 ** softfp.FMT[k][0] - 1)
            self.fact([v], v == t)
            for f in (facts(v) if facts else ()):
                self.fact([v], f)
            self._fpc[key] = v
            self.keep.append(t)
        return v

    def isnan(self, k, b):
        if isinstance(b, int):
            return z3.BoolVal(softfp.isnan(k, b))
        return z3.Function('ISNAN_' + k, z3.IntSort(), z3.BoolSort())(b)

    def rn(self, k, x):
        x = I(x)
        w, p, eb = softfp.FMT[k]
        return self._fp('RN', k, [x], lambda v: [(x == 0) == (v == 0)])

    def fdiv(self, k, a, b):
        a, b = I(a), I(b)
        return self._fp('FDIV', k, [a, b], lambda v: [z3.Implies(z3.And(a == 0, b == 0), self.isnan(k, v))])

    def hint(self, name, *a):
        getattr(self, 'hint_' + name)(*a)

    def hint_canon(self, f1, f2):
        """canonical forms of equal values are equal"""
        a, b = self.S.redn(f1), self.S.redn(f2)
        ra, rb = self.red(f1), self.red(f2)
        eq = z3.And(a.n == b.n, a.d == b.d)
        self.fact([ra.n, rb.n, ra.d, rb.d], z3.Implies(z3.And(f1.d != 0, f2.d != 0, self.VAL(I(f1.n), I(f1.d)) == self.VAL(I(f2.n), I(f2.d))), eq),
                  z3.Implies(z3.And(f1.d != 0, f2.d != 0, f1.n * f2.d == f2.n * f1.d), eq))

    # ---- obligations
    def oblige(self, kind, where, H, goal, label=None, props=()):
        if isinstance(goal, Fm):
            pass
        else:
            goal = Fm(B(goal))
        base = '%s: %s at %s' % (self.name, kind if label is None else kind + ' "%s"' % label, where)
        c = self.counter.get(base, 0) + 1
        self.counter[base] = c
        self.obs.append(Ob(base + (' #%d' % c if c > 1 else ''), kind, list(H), goal, label, props, self))


class Exec:
    def __init__(self, mod, registry, unit, dem):
        self.mod, self.reg, self.u, self.dem = mod, registry, unit, dem
        self.nobj = 0
        self.globs = {}
        self.active = []
        self.steps = 0
        self.inside_key = 0
        self.noct = None
        self.flinks = False
        self.cur = None
        self.symbranch = False
        self.loopinfo = {}
        self.loopcache = True

    MAXSTEPS = 400000

    # ---- objects
    def alloc(self, st, size, kind, name, extra=None):
        self.nobj += 1
        o = Obj(self.nobj, size, kind, name, extra)
        st.mem[o] = {}
        return o

    def glob(self, st, name):
        o = self.globs.get(name)
        if o is None:
            g = self.mod.globals.get(name)
            if g is None:
                if name in self.mod.funcs or name in self.mod.decls:
                    self.nobj += 1
                    o = Obj(self.nobj, 0, 'func', name)
                    self.globs[name] = (o, {})
                    return o
                raise Outside('global ' + name)
            ty, const, init = g
            self.nobj += 1
            try:
                sz = self.mod.size(ty)
            except (IRError, KeyError):
                sz = 0
            cells = {}
            if init is None:
                o = Obj(self.nobj, sz, 'extern', name)
            else:
                o = Obj(self.nobj, sz, 'const' if const else 'mutglob', name)
                try:
                    self.init(cells, 0, ty, init)
                except (IRError, Outside):
                    o.kind = 'extern'
            self.globs[name] = (o, cells)
        o = self.globs[name][0]
        if o.kind == 'mutglob' and o not in st.mem:
            st.mem[o] = {}          # arbitrary contents on entry
        return o

    def init(self, cells, off, ty, v):
        t = self.mod.resolve(ty)
        if v[0] == 'undef':
            return
        if t[0] == 'int':
            if v[0] == 'zero':
                v = ('int', 0)
            if v[0] != 'int':
                raise Outside('global init')
            cells[off] = (szbytes(t[1]), IV(t[1] if t[1] > 1 else 8, wrap_s(v[1], max(8, t[1]))))
        elif t[0] == 'ptr':
            cells[off] = (8, self.const(None, t, v))
        elif t[0] == 'struct':
            offs, _ = self.mod.layout(t)
            for i, (o, f) in enumerate(zip(offs, t[1])):
                self.init(cells, off + o, f, ('zero',) if v[0] == 'zero' else v[1][i][1])
        elif t[0] == 'array':
            s = self.mod.size(t[2])
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]):
                    cells[off + i] = (1, IV(8, wrap_s(b, 8)))
            else:
                for i in range(t[1]):
                    self.init(cells, off + i * s, t[2], ('zero',) if v[0] == 'zero' else v[1][i][1])
        elif t[0] in ('float', 'double'):
            cells[off] = (4 if t[0] == 'float' else 8, self.fpconst(t[0], 0.0 if v[0] == 'zero' else v[1]))
        else:
            raise Outside('global init type')

    def fpconst(self, k, x):
        if k == 'x86_fp80':
            if not isinstance(x, str):
                raise Outside('floating-point constant')
            b = int(x[3:], 16)
        else:
            try:
                b = int.from_bytes(struct.pack('<f' if k == 'float' else '<d', x), 'little')
            except OverflowError:
                raise Outside('floating-point constant')
        f = self.u.isnan(k, z3.IntVal(b))
        self.u.fact(['POW'], f == z3.BoolVal(softfp.isnan(k, b)))
        return FV(k, b)

    # ---- operand evaluation
    def const(self, st, ty, v):
        k = v[0]
        if k == 'int':
            if ty == ity(1):
                return BV(z3.BoolVal(bool(v[1])))
            return IV(ty[1], wrap_s(v[1], ty[1]))
        if k == 'null':
            return PV(None, 0)
        if k == 'glob':
            return PV(self.glob(st, v[1]), 0)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t[0] == 'int':
                return self.const(st, t, ('int', 0))
            if t[0] == 'ptr':
                return PV(None, 0)
            if t[0] == 'struct':
                return AG([self.const(st, f, v) for f in t[1]])
        if k == 'gepc':
            base = self.const(st, PTR, v[2][0][1])
            off = self.gepoff(None, v[1], v[2][1:], st)
            return PV(base.o, base.off + off)
        if k == 'agg':
            return AG([self.const(st, t, x) for t, x in v[1]])
        if k in ('fp', 'fp80'):
            return self.fpconst(ty[0], v[1])
        raise Outside('constant %r' % (v,))

    def val(self, st, regs, ty, v):
        if v[0] == 'reg':
            try:
                return regs[v[1]]
            except KeyError:
                raise Outside('use of undefined register ' + v[1])
        return self.const(st, self.mod.resolve(ty), v)

    def gepoff(self, regs, st_ty, idx, st):
        off = 0
        t = st_ty
        first = True
        for (ity_, v) in idx:
            x = self.val(st, regs, ity_, v) if regs is not None else self.const(st, ity_, v)
            if first:
                off = off + self.s(x) * self.mod.size(t)
                first = False
                continue
            r = self.mod.resolve(t)
            if r[0] == 'struct':
                i = x.t
                offs, _ = self.mod.layout(r)
                off = off + offs[i]
                t = r[1][i]
            elif r[0] == 'array':
                off = off + self.s(x) * self.mod.size(r[2])
                t = r[2]
            else:
                raise Outside('gep')
        return off

    # ---- integer views
    def s(self, x):
        """signed value"""
        if isinstance(x, BV):
            return z3.If(x.t, z3.IntVal(-1), z3.IntVal(0))
        if not isinstance(x, IV):
            raise Outside('integer expected, got %r' % (x,))
        if isinstance(x.t, int) or x.sg == 's':
            return x.t
        if self.u.within(x.t, 0, 2 ** (x.w - 1) - 1) or self.inrange(x):
            return x.t
        return z3.If(x.t >= 2 ** (x.w - 1), x.t - 2 ** x.w, x.t)

    def un(self, x):
        """unsigned value"""
        if isinstance(x, BV):
            return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        if not isinstance(x, IV):
            raise Outside('integer expected, got %r' % (x,))
        if isinstance(x.t, int):
            return x.t % 2 ** x.w
        if x.sg == 'u' or self.u.within(x.t, 0, 2 ** (x.w - 1) - 1) or self.inrange(x):
            return x.t
        return z3.If(x.t < 0, x.t + 2 ** x.w, x.t)

    def inrange(self, x):
        """the path proves that the signed and the unsigned reading agree"""
        st = self.cur
        if st is None:
            return False
        k = x.t.get_id()
        v = st.views.get(k)
        if v is True or v == -1 - len(st.H):
            return v is True
        r = self.prove(st, x.t >= 0 if x.sg == 's' else x.t < 2 ** (x.w - 1), 150)
        st.views[k] = True if r else -1 - len(st.H)
        return r

    def prove(self, st, goal, ms=400):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        import solve
        return solve.quick(self.u, st.H, Fm(goal), ms)

    def norm(self, st, w, r, sg, where=''):
        """wrap r modulo 2^w, keeping it exact when that is provable"""
        if isinstance(r, int):
            return IV(w, wrap_s(r, w))
        lo, hi = (0, 2 ** w - 1) if sg == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        if self.u.within(r, lo, hi) or self.prove(st, z3.And(lo <= r, r <= hi)):
            return IV(w, r, sg)
        if sg == 's' and self.prove(st, z3.And(0 <= r, r < 2 ** w)):
            return IV(w, r, 'u')
        k = self.u.fresh('wrapk')
        m = self.u.fresh('wrapped', 0, 2 ** w - 1)
        self.u.fact([k, m], m == r - k * 2 ** w)
        if self.u.strobj is not None:
            import solve
            if solve.pure(self.u, r):
                self.u.strsyms |= {k.get_id(), m.get_id()}
        return IV(w, m, 'u')

    # ---- memory
    def cells(self, st, o):
        if o in st.mem:
            return st.mem[o]
        e = self.globs.get(o.name)
        if e and e[0] is o:
            return e[1]
        raise Outside('dead object %s' % o)

    def chk(self, st, p, n, where, write=False):
        if not isinstance(p, PV):
            raise Outside('pointer expected')
        if p.o is None:
            self.u.oblige('null dereference', where, st.H, z3.BoolVal(False))
            return False
        o = p.o
        if o not in st.mem and not (self.globs.get(o.name) or (None,))[0] is o:
            self.u.oblige('dangling pointer', where, st.H, z3.BoolVal(False))
            return False
        if o.kind in ('stream', 'vtable'):
            if write:
                raise Outside('write to the stream object')
            return True
        if write and o.kind in ('param', 'const', 'extern', 'str', 'func'):
            self.u.oblige('frame', where, st.H, z3.BoolVal(False), 'write to %s' % o.name)
            return False
        if o.kind == 'str':
            lo, hi = o.extra
            g = z3.And(lo <= p.off, p.off + n <= hi)
            self.u.oblige('bounds', where, st.H, g)
            self.assume(st, g)
            return True
        if isinstance(p.off, int) and isinstance(o.size, int):
            if not 0 <= p.off <= o.size - n:
                self.u.oblige('bounds', where, st.H, z3.BoolVal(False))
                return False
        else:
            self.u.oblige('bounds', where, st.H, z3.And(0 <= p.off, p.off + n <= o.size))
            self.assume(st, z3.And(0 <= p.off, p.off + n <= o.size))
        return True

    def load(self, st, p, ty, where):
        n = self.mod.size(ty)
        if not self.chk(st, p, n, where):
            st.dead = True
            return UNDEF
        t = self.mod.resolve(ty)
        if p.o.kind == 'stream' and p.off == 0 and t[0] == 'ptr':
            return PV(self.alloc(st, None, 'vtable', 'vtable'), 0)
        if p.o.kind == 'vtable' and p.off == -24 and n == 8:
            return IV(64, 0)      # the ghost stream is its own virtual base
        if p.o.kind in ('stream', 'vtable'):
            raise Outside('read of a stream object')
        if p.o.kind == 'extern':
            raise Outside('read of external object ' + p.o.name)
        if p.o.kind == 'mutglob' and isinstance(p.off, int) and p.off not in self.cells(st, p.o):
            raise Outside('read of mutable global state ' + p.o.name)
        if p.o.kind == 'str':
            return self.load_str(st, p, t, where)
        if not isinstance(p.off, int):
            return self.load_symoff(st, p, t, where)
        cs = self.cells(st, p.o)
        if t[0] == 'struct':
            offs, _ = self.mod.layout(t)
            return AG([self.load(st, PV(p.o, p.off + o), f, where) for o, f in zip(offs, t[1])])
        c = cs.get(p.off)
        if c is not None and c[0] == n:
            v = c[1]
            if t[0] == 'int':
                if isinstance(v, IV):
                    if t[1] == 1:
                        return self.tobool(v)
                    if v.w == t[1]:
                        return v
                    if isinstance(v.t, int):
                        return IV(t[1], wrap_s(v.t, t[1]))
                if isinstance(v, BN):
                    return v
                if isinstance(v, FV):
                    return self.float_bits(st, v, t[1])
            elif t[0] == 'ptr' and isinstance(v, PV):
                return v
            elif t[0] in ('float', 'double', 'x86_fp80'):
                if isinstance(v, FV) and v.k == t[0]:
                    return v
                if isinstance(v, IV) and v.w == softfp.FMT[t[0]][0]:
                    return FV(t[0], self.un(v))
                if v is not UNDEF:
                    raise Outside('reinterpretation as ' + t[0])
            if v is UNDEF:
                return UNDEF
        sub = sorted((o, x) for o, x in cs.items() if p.off <= o < p.off + n)
        if t[0] == 'int' and sub:
            if all(o + x[0] <= p.off + n for o, x in sub):
                if all(isinstance(x[1], IV) and isinstance(x[1].t, int) for _, x in sub) and sum(x[0] for _, x in sub) == n:
                    v = 0
                    for o, x in sub:
                        v |= (x[1].t % 2 ** (8 * x[0])) << (8 * (o - p.off))
                    return IV(t[1], wrap_s(v, t[1]))
                return BN(n, [(o - p.off, x[0], x[1]) for o, x in sub])
        over = [(o, x) for o, x in cs.items() if o <= p.off < o + x[0]]
        if t[0] == 'int' and t[1] >= 8 and len(over) == 1:
            o, x = over[0]
            if p.off + n <= o + x[0] and isinstance(x[1], FV) and 8 * (p.off - o + n) <= (80 if x[1].k == 'x86_fp80' else 64) + 7:
                b = x[1].t
                d = 2 ** (8 * (p.off - o))
                if isinstance(b, int):
                    return IV(t[1], wrap_s(b // d, t[1]))
                r = (b / d) % 2 ** t[1]
                self.u.keep.append(r)
                return IV(t[1], r, 'u')
            if p.off + n <= o + x[0] and isinstance(x[1], IV) and isinstance(x[1].t, int):
                return IV(t[1], wrap_s((x[1].t % 2 ** (8 * x[0])) >> (8 * (p.off - o)), t[1]))
            raise Outside('mixed-size load at ' + where)
        if not sub and not over:
            return UNDEF
        raise Outside('mixed-size load at ' + where)

    def load_str(self, st, p, t, where):
        if t != ity(8):
            raise Outside('string load')
        return IV(8, self.u.strs.ch(p.off), 's')

    def load_symoff(self, st, p, t, where):
        raise Outside('symbolic offset load at ' + where)

    def float_bits(self, st, v, w):
        if softfp.FMT[v.k][0] != w:
            raise Outside('float bits')
        return IV(w, wrap_s(v.t, w) if isinstance(v.t, int) else v.t, 'u')

    def tobool(self, v):
        if isinstance(v, BV):
            return v
        if isinstance(v.t, int):
            return BV(z3.BoolVal(bool(v.t & 1)))
        t = v.t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0:
                return BV(c)
        return BV(t % 2 == 1)

    def store(self, st, p, ty, v, where):
        n = self.mod.size(ty)
        if not self.chk(st, p, n, where, True):
            st.dead = True
            return
        if not isinstance(p.off, int):
            raise Outside('symbolic offset store at ' + where)
        t = self.mod.resolve(ty)
        cs = st.mem[p.o]
        if t[0] == 'struct' and v is not UNDEF:
            offs, _ = self.mod.layout(t)
            for o, f, x in zip(offs, t[1], v.xs):
                self.store(st, PV(p.o, p.off + o), f, x, where)
            return
        self.clear(cs, p.off, n)
        if v is UNDEF:
            return
        if isinstance(v, BN):
            for o, s, x in v.cells:
                if o < n:
                    cs[p.off + o] = (s, x)
            return
        if isinstance(v, BV):
            v = IV(8, z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), 's')
            self.u.keep.append(v.t)
        cs[p.off] = (n, v)

    def clear(self, cs, off, n):
        for o in list(cs):
            if o < off + n and o + cs[o][0] > off:
                c = cs[o]
                if o < off or o + c[0] > off + n:
                    if isinstance(c[1], IV) and isinstance(c[1].t, int):
                        v = c[1].t % 2 ** (8 * c[0])
                        for i in range(c[0]):
                            if not off <= o + i < off + n:
                                cs[o + i] = (1, IV(8, wrap_s((v >> (8 * i)) & 255, 8)))
                    else:
                        raise Outside('partial overwrite')
                cs.pop(o, None)

    def memcpy(self, st, d, s, n, where):
        if not isinstance(n, int):
            raise Outside('symbolic memcpy')
        if n == 0:
            return
        if not self.chk(st, d, n, where, True) or not self.chk(st, s, n, where):
            st.dead = True
            return
        if s.o.kind == 'extern':
            raise Outside('copy from external object')
        cs = dict(self.cells(st, s.o))
        dst = st.mem[d.o]
        self.clear(dst, d.off, n)
        for o, c in cs.items():
            if s.off <= o and o + c[0] <= s.off + n:
                dst[d.off + o - s.off] = c
            elif o < s.off + n and o + c[0] > s.off:
                raise Outside('partial copy at ' + where)

    def memset(self, st, d, byte, n, where):
        if not isinstance(n, int) or not isinstance(byte, int):
            raise Outside('symbolic memset')
        if n == 0:
            return
        if not self.chk(st, d, n, where, True):
            st.dead = True
            return
        cs = st.mem[d.o]
        self.clear(cs, d.off, n)
        i = 0
        while i < n:
            cs[d.off + i] = (1, IV(8, wrap_s(byte, 8)))
            i += 1

    # ---- hypotheses
    def assume(self, st, f):
        if not isinstance(f, Fm):
            f = Fm(B(f))
        if z3.is_true(f.o):
            return
        st.H.append(f)
        if self.u.loopsyms:
            self.propagate(st, f.o)

    def propagate(self, st, f):
        """an equation fixing a loop variable: use its value in the memory from here on (equals for equals)"""
        neg = False
        while z3.is_not(f):
            f, neg = f.arg(0), not neg
        if z3.is_distinct(f) and f.num_args() == 2:
            neg = not neg
        elif not z3.is_eq(f):
            return
        if neg:
            return
        a, b = z3.simplify(f.arg(0)), z3.simplify(f.arg(1))
        for x, y in ((a, b), (b, a)):
            if x.get_id() in self.u.loopsyms and x.get_id() not in syms(y) and z3.is_int(x):
                break
        else:
            return
        import strs
        self.u.keep.append(y)

        def sub(t):
            if isinstance(t, int) or x.get_id() not in syms(t):
                return t
            r = self.u.strs.register(sm_(z3.substitute(t, (x, y))))
            self.u.keep.append(r)
            return r
        for o, cs in st.mem.items():
            for off, (n, v) in list(cs.items()):
                if isinstance(v, IV):
                    t = sub(v.t)
                    if t is not v.t:
                        cs[off] = (n, IV(v.w, t, v.sg))
                elif isinstance(v, PV):
                    t = sub(v.off)
                    if t is not v.off:
                        cs[off] = (n, PV(v.o, t))

    def feasible(self, st, ms=60):
        import solve
        return solve.feasible(self.u, st.H, ms, self.flinks)

    # ---- function execution
    def call(self, st, fname, args, where, depth, invoke=False):
        """-> list of outcomes (kind, state, value)"""
        dem = self.dem.get(fname, fname)
        r = self.builtin(st, fname, dem, args, where)
        if r is not None:
            return r
        ct = self.reg.find(fname, dem) if self.reg else None
        if ct is not None and self.noct is not None and self.noct(ct, [self.dem.get(f, f) for f in self.active]):
            ct = None
        if ct is not None and not (ct.key == self.u.key and (self.inside_key == 0 or ct.measure is None)):
            try:
                out = self.by_contract(st, ct, fname, args, where)
            except NotApplicable:
                out = None
            if out is not None:
                return out
        if fname in self.mod.funcs:
            if depth > 60:
                raise Outside('call depth')
            if fname in self.active:
                raise Outside('recursion without contract: ' + dem)
            self.u.inlined.add(dem)
            mine = ct is not None and ct.key == self.u.key
            if mine:
                self.inside_key += 1
            try:
                return self.run(st, fname, args, depth + 1)
            finally:
                if mine:
                    self.inside_key -= 1
        raise Outside('external function ' + dem)

    def run(self, st, fname, args, depth=0):
        f = self.mod.body(fname)
        self.active.append(fname)
        try:
            regs = {}
            if len(f.params) != len(args):
                raise Outside('arity of ' + fname)
            for (nm, t, a), v in zip(f.params, args):
                regs[nm] = v
            return self.steps_of(f, fname, [(st, regs, f.order[0], None, 0, [], {})], depth)
        finally:
            self.active.pop()

    def steps_of(self, f, fname, work, depth, part=None):
        """execute the work list; part = (header, blocks, arrivals, exits): only one pass through a loop body"""
        if True:
            outs = []
            short = self.dem.get(fname, fname).split('(')[0][-70:]
            entering = part is not None
            while work:
                st, regs, lab, prev, idx, allocs, visits = work.pop()
                blk = f.blocks[lab]
                if part is not None and idx == 0:
                    if lab not in part[1]:
                        part[3].append((st, regs, lab, prev, idx, allocs, visits))
                        continue
                    if lab == part[0] and not entering:
                        part[2].append((st, regs, lab, prev, idx, allocs, visits))
                        continue
                if idx == 0:
                    v = visits.get(lab, 0) + 1
                    visits = dict(visits)
                    visits[lab] = v
                    if v > 1:
                        if v > 130:
                            raise Outside('loop without invariant in ' + short)
                    if not entering:
                        h = self.loop_hook(f, fname, st, regs, lab, prev, allocs, visits, depth)
                        if h is not None:
                            work.extend(h)
                            continue
                    entering = False
                    phis = [i for i in blk if i[0] == 'phi']
                    if phis:
                        vals = []
                        for ins in phis:
                            vals.append((ins[1], self.val(st, regs, ins[2], dict((l, x) for x, l in ins[3])[prev])))
                        for k, x in vals:
                            regs[k] = x
                        idx = len(phis)
                while True:
                    ins = blk[idx]
                    self.steps += 1
                    if self.steps > self.MAXSTEPS:
                        raise Outside('too many steps')
                    op = ins[0]
                    where = short + ' ' + lab + '.' + str(idx)
                    self.cur = st
                    if op == 'call':
                        res = self.do_call(st, regs, ins, where, depth)
                        nxt = ins[5]
                        first = True
                        cont = []
                        for kind, s2, v in res:
                            if s2.dead:
                                continue
                            if kind == 'throw':
                                if nxt is not None:
                                    self.u.oblige('terminate', where, s2.H, z3.BoolVal(False), 'exception reaches a noexcept boundary')
                                else:
                                    outs.append(('throw', s2, v))
                                continue
                            r2 = regs if len(res) == 1 else dict(regs)
                            if ins[1] is not None:
                                r2[ins[1]] = v
                            cont.append((s2, r2))
                        if not cont:
                            break
                        for s2, r2 in cont[1:]:
                            if nxt is not None:
                                work.append((s2, r2, nxt, lab, 0, allocs, visits))
                            else:
                                work.append((s2, r2, lab, prev, idx + 1, allocs, visits))
                        st, regs = cont[0]
                        if nxt is not None:
                            work.append((st, regs, nxt, lab, 0, allocs, visits))
                            break
                        idx += 1
                        continue
                    if op == 'br':
                        work.append((st, regs, ins[2], lab, 0, allocs, visits))
                        break
                    if op == 'condbr':
                        c = self.val(st, regs, ity(1), ins[2])
                        if c is UNDEF:
                            self.u.oblige('branch on uninitialised value', where, st.H, z3.BoolVal(False))
                            break
                        t = z3.simplify(c.t)
                        if z3.is_true(t):
                            work.append((st, regs, ins[3], lab, 0, allocs, visits))
                        elif z3.is_false(t):
                            work.append((st, regs, ins[4], lab, 0, allocs, visits))
                        else:
                            self.symbranch = True
                            self.branch(work, st, regs, [(c.t, ins[3]), (z3.Not(c.t), ins[4])], lab, allocs, visits)
                        break
                    if op == 'switch':
                        v = self.val(st, regs, ins[2], ins[3])
                        if isinstance(v, BV):
                            v = IV(8, self.un(v))
                        if v is UNDEF:
                            self.u.oblige('branch on uninitialised value', where, st.H, z3.BoolVal(False))
                            break
                        sv = self.s(v)
                        if isinstance(sv, int) or z3.is_int_value(sv):
                            sv = sv if isinstance(sv, int) else sv.as_long()
                            tgt = ins[4]
                            for cv, l in ins[5]:
                                if wrap_s(cv, v.w) == sv:
                                    tgt = l
                            work.append((st, regs, tgt, lab, 0, allocs, visits))
                        else:
                            alts = [(sv == wrap_s(cv, v.w), l) for cv, l in ins[5]]
                            alts.append((z3.And(*[sv != wrap_s(cv, v.w) for cv, l in ins[5]]), ins[4]))
                            self.branch(work, st, regs, alts, lab, allocs, visits)
                        break
                    if op == 'ret':
                        v = None if ins[2] is None else self.val(st, regs, ins[2], ins[3])
                        for o in allocs:
                            st.mem.pop(o, None)
                        outs.append(('ret', st, v))
                        break
                    if op == 'unreachable':
                        self.u.oblige('unreachable reached', where, st.H, z3.BoolVal(False))
                        break
                    if op == 'resume' or op == 'landingpad':
                        break
                    self.simple(st, regs, ins, where, allocs)
                    if st.dead:
                        break
                    idx += 1
            return outs

    def loop_hook(self, f, fname, st, regs, lab, prev, allocs, visits, depth):
        import loops
        return loops.hook(self, f, fname, st, regs, lab, prev, allocs, visits, depth)

    def branch(self, work, st, regs, alts, lab, allocs, visits):
        live = []
        for c, tgt in alts:
            s2 = st.fork()
            self.assume(s2, c)
            if self.feasible(s2):
                live.append((s2, tgt))
        for s2, tgt in reversed(live):
            work.append((s2, dict(regs), tgt, lab, 0, list(allocs), visits))

    def do_call(self, st, regs, ins, where, depth):
        _, res, rt, callee, args, nxt = ins
        vals = [self.val(st, regs, t, v) for t, v, a in args]
        if callee[0] == '%':
            p = regs[callee]
            if isinstance(p, PV) and p.o is not None and p.o.kind == 'func':
                callee = p.o.name
            else:
                raise Outside('indirect call')
        return self.call(st, callee, vals, where, depth, nxt is not None)

    # ---- simple instructions
    def simple(self, st, regs, ins, where, allocs):
        op = ins[0]
        u = self.u
        if op == 'alloca':
            if ins[3] is not None:
                raise Outside('dynamic alloca')
            o = self.alloc(st, self.mod.size(ins[2]), 'local', ins[1])
            allocs.append(o)
            regs[ins[1]] = PV(o, 0)
        elif op == 'load':
            regs[ins[1]] = self.load(st, self.val(st, regs, PTR, ins[3]), ins[2], where)
        elif op == 'store':
            self.store(st, self.val(st, regs, PTR, ins[4]), ins[2], self.val(st, regs, ins[2], ins[3]), where)
        elif op == 'gep':
            b = self.val(st, regs, PTR, ins[3])
            off = self.gepoff(regs, ins[2], ins[4], st)
            if not isinstance(b, PV):
                raise Outside('gep on non-pointer')
            n = b.off + off
            if not isinstance(n, int):
                n = z3.simplify(n)
                if z3.is_int_value(n):
                    n = n.as_long()
                else:
                    u.keep.append(n)
            if b.o is not None and not isinstance(n, int) and b.o.kind == 'str':
                g = z3.And(b.o.extra[0] <= n, n <= b.o.extra[1])
                u.oblige('pointer arithmetic', where, st.H, g)
                self.assume(st, g)
            regs[ins[1]] = PV(b.o, n)
        elif op == 'bin':
            regs[ins[1]] = self.binop(st, ins, self.val(st, regs, ins[3], ins[4]), self.val(st, regs, ins[3], ins[5]), where)
        elif op == 'icmp':
            regs[ins[1]] = self.icmp(st, ins[2], ins[3], self.val(st, regs, ins[3], ins[4]), self.val(st, regs, ins[3], ins[5]), where)
        elif op == 'cast':
            regs[ins[1]] = self.cast(st, ins[2], ins[3], self.val(st, regs, ins[3], ins[4]), ins[5], where)
        elif op == 'select':
            c = self.val(st, regs, ity(1), ins[3])
            a = self.val(st, regs, ins[2], ins[4])
            b = self.val(st, regs, ins[2], ins[5])
            t = z3.simplify(c.t)
            if z3.is_true(t):
                regs[ins[1]] = a
            elif z3.is_false(t):
                regs[ins[1]] = b
            elif isinstance(a, BV) and isinstance(b, BV):
                regs[ins[1]] = BV(z3.If(c.t, a.t, b.t))
            elif isinstance(a, IV) and isinstance(b, IV):
                sg = 'u' if 'u' in (a.sg if not isinstance(a.t, int) else '', b.sg if not isinstance(b.t, int) else '') else 's'
                g = self.un if sg == 'u' else self.s
                regs[ins[1]] = IV(a.w, z3.If(c.t, I(g(a)), I(g(b))), sg)
                u.keep.append(regs[ins[1]].t)
            elif isinstance(a, PV) and isinstance(b, PV) and a.o is b.o:
                regs[ins[1]] = PV(a.o, z3.If(c.t, I(a.off), I(b.off)))
            else:
                raise Outside('select')
        elif op == 'extractvalue':
            v = self.val(st, regs, ins[2], ins[3])
            for i in ins[4]:
                v = v.xs[i] if isinstance(v, AG) else UNDEF
            regs[ins[1]] = v
        elif op == 'insertvalue':
            v = self.val(st, regs, ins[2], ins[3])
            x = self.val(st, regs, ins[4], ins[5])
            if len(ins[6]) != 1:
                raise Outside('nested insertvalue')
            n = len(self.mod.resolve(ins[2])[1])
            xs = list(v.xs) if isinstance(v, AG) else [UNDEF] * n
            xs[ins[6][0]] = x
            regs[ins[1]] = AG(xs)
        elif op == 'freeze':
            regs[ins[1]] = self.val(st, regs, ins[2], ins[3])
        elif op == 'fbin':
            regs[ins[1]] = self.fbin(st, ins[2], self.val(st, regs, ins[3], ins[4]), self.val(st, regs, ins[3], ins[5]), where)
        elif op == 'fneg':
            v = self.val(st, regs, ins[2], ins[3])
            regs[ins[1]] = FV(v.k, u._fp('FP_neg', v.k, [v.t]))
        elif op == 'fcmp':
            regs[ins[1]] = self.fcmp(st, ins[2], self.val(st, regs, ins[3], ins[4]), self.val(st, regs, ins[3], ins[5]), where)
        else:
            raise Outside('instruction ' + op)

    def fbin(self, st, op, a, b, where):
        if not self.defined_ops(st, where, a, b):
            return UNDEF
        if op == 'fdiv':
            return FV(a.k, self.u.fdiv(a.k, a.t, b.t))
        return FV(a.k, self.u._fp('FP_' + op, a.k, [a.t, b.t]))

    def fcmp(self, st, op, a, b, where):
        if not self.defined_ops(st, where, a, b):
            return UNDEF
        x, y = I(a.t), I(b.t)
        if op in ('uno', 'ord') and (x.get_id() == y.get_id() or not self.isnan_possible(a.k, b.t)):
            f = self.u.isnan(a.k, a.t)
            return BV(f if op == 'uno' else z3.Not(f))
        return BV(z3.Function('FP_%s_%s' % (op, a.k), z3.IntSort(), z3.IntSort(), z3.BoolSort())(x, y))

    def isnan_possible(self, k, t):
        return not isinstance(t, int) or softfp.isnan(k, t)

    def defined_ops(self, st, where, *vs):
        for v in vs:
            if v is UNDEF:
                self.u.oblige('use of uninitialised value', where, st.H, z3.BoolVal(False))
                st.dead = True
                return False
            if isinstance(v, BN):
                raise Outside('arithmetic on a coerced struct')
        return True

    def binop(self, st, ins, a, b, where):
        op, fl = ins[2], ins[6]
        if not self.defined_ops(st, where, a, b):
            return UNDEF
        u = self.u
        if isinstance(a, BV) or isinstance(b, BV):
            if op == 'and':
                return BV(z3.And(a.t, b.t))
            if op == 'or':
                return BV(z3.Or(a.t, b.t))
            if op == 'xor':
                return BV(z3.Xor(a.t, b.t) if not z3.is_true(b.t) else z3.Not(a.t))
            raise Outside('i1 ' + op)
        if isinstance(a, PV) or isinstance(b, PV):
            if op == 'sub' and isinstance(a, PV) and isinstance(b, PV) and a.o is b.o:
                return IV(64, z3.simplify(I(a.off) - I(b.off)) if not both_ints(a.off, b.off) else a.off - b.off, 's')
            raise Outside('pointer arithmetic ' + op)
        w = a.w
        lo, hi = -2 ** (w - 1), 2 ** (w - 1) - 1
        if op in ('add', 'sub', 'mul'):
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
            if 'nsw' in fl:
                r = f(self.s(a), self.s(b))
                if isinstance(r, int):
                    if lo <= r <= hi:
                        return IV(w, r)
                    u.oblige('signed overflow', where, st.H, z3.BoolVal(False), '%s i%d' % (op, w))
                    st.dead = True
                    return UNDEF
                u.keep.append(r)
                if not u.within(r, lo, hi):
                    g = z3.And(lo <= r, r <= hi)
                    u.oblige('signed overflow', where, st.H, g, '%s i%d' % (op, w))
                    self.assume(st, g)
                return IV(w, r, 's')
            sg = 'u'
            ca, cb = isinstance(a.t, int), isinstance(b.t, int)
            if (a.sg == 's' or ca) and (b.sg == 's' or cb):
                sg = 's'
                r = f(self.s(a), self.s(b))
            else:
                # constants: choose the small representative for subtraction-like constants
                if cb and b.t < 0 and op == 'add':
                    r = self.un(a) + b.t
                elif ca and a.t < 0 and op == 'add':
                    r = self.un(b) + a.t
                else:
                    r = f(self.un(a), self.un(b))
            if not isinstance(r, int):
                u.keep.append(r)
            return self.norm(st, w, r, sg, where)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            sgn = op[0] == 's'
            x, y = (self.s(a), self.s(b)) if sgn else (self.un(a), self.un(b))
            if isinstance(y, int):
                if y == 0:
                    u.oblige('division by zero', where, st.H, z3.BoolVal(False))
                    st.dead = True
                    return UNDEF
            else:
                u.oblige('division by zero', where, st.H, y != 0)
                self.assume(st, y != 0)
            if sgn and not (isinstance(y, int) and y != -1) and not u.within(I(x), lo + 1, hi):
                g = z3.Not(z3.And(I(x) == lo, I(y) == -1))
                u.oblige('signed overflow', where, st.H, g, '%s i%d' % (op, w))
                self.assume(st, g)
            q, r = u.divmod(x, y)
            t = q if op in ('sdiv', 'udiv') else r
            if not isinstance(t, int):
                u.keep.append(t)
            return IV(w, t, 's' if sgn else 'u')
        if op in ('shl', 'lshr', 'ashr'):
            n = self.un(b)
            if not isinstance(n, int):
                u.oblige('shift range', where, st.H, n < w)
                self.assume(st, n < w)
            elif n >= w:
                u.oblige('shift range', where, st.H, z3.BoolVal(False))
                st.dead = True
                return UNDEF
            pw = 2 ** n if isinstance(n, int) else u.pow(2, n)
            if op == 'shl':
                if 'nsw' in fl:
                    raise Outside('shl nsw')
                sg = 's' if a.sg == 's' and not isinstance(a.t, int) else 'u'
                x = self.s(a) if sg == 's' else self.un(a)
                if isinstance(a.t, int) and isinstance(n, int):
                    return IV(w, wrap_s(x * pw, w))
                r = x * pw
                u.keep.append(r)
                return self.norm(st, w, r, sg, where)
            x = self.un(a) if op == 'lshr' else self.s(a)
            if both_ints(x, n):
                return IV(w, wrap_s(x >> n, w))
            zz = u._ctz.get(I(x).get_id())
            if op == 'lshr' and zz is not None and not isinstance(n, int) and zz[1].get_id() == n.get_id() and self.prove(st, I(x) > 0):
                return IV(w, zz[2], 'u')
            if isinstance(pw, int) and pw == 1:
                return a
            r = I(x) / I(pw)     # z3 div: floor for positive divisor
            if not isinstance(pw, int):
                q = u.fresh('shr')
                u.fact([q], z3.And(I(x) - pw < q * pw, q * pw <= I(x)))
                r = q
            u.keep.append(r)
            return IV(w, r, 'u' if op == 'lshr' else 's')
        if op in ('and', 'or', 'xor'):
            x, y = self.un(a), self.un(b)
            if both_ints(x, y):
                return IV(w, wrap_s({'and': x & y, 'or': x | y, 'xor': x ^ y}[op], w))
            if isinstance(x, int):
                x, y = y, x
            if op == 'and' and isinstance(y, int):
                if y == 0:
                    return IV(w, 0)
                if y & (y + 1) == 0:
                    if u.within(x, 0, y):
                        return IV(w, x, 'u')
                    r = x % (y + 1)
                    u.keep.append(r)
                    return IV(w, r, 'u')
            if op in ('or', 'xor') and isinstance(y, int) and y == 0:
                return a if not isinstance(a.t, int) else b
            if op == 'xor' and isinstance(y, int) and y == 2 ** w - 1:
                n = b if isinstance(a.t, int) else a
                if n.sg == 'u':
                    return IV(w, y - I(x), 'u')
                return IV(w, -1 - I(self.s(n)), 's')
            fn = z3.Function('BIT_%s_%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
            x, y = I(x), I(y)
            v = u.fresh('bit', 0, 2 ** w - 1)
            h = 2 ** (w - 1)
            u.fact([v], v == fn(x, y))
            if op == 'xor':
                u.fact([v], z3.And((v >= h) == z3.Xor(x >= h, y >= h), (v == 0) == (x == y), v <= x + y, v >= x - y, v >= y - x))
            elif op == 'or':
                u.fact([v], z3.And((v >= h) == z3.Or(x >= h, y >= h), v >= x, v >= y, v <= x + y))
            else:
                u.fact([v], z3.And((v >= h) == z3.And(x >= h, y >= h), v <= x, v <= y, v >= x + y - 2 ** w + 1))
            return IV(w, v, 'u')
        raise Outside('binop ' + op)

    def icmp(self, st, pred, ty, a, b, where):
        if not self.defined_ops(st, where, a, b):
            return UNDEF
        if isinstance(a, PV) or isinstance(b, PV):
            if not (isinstance(a, PV) and isinstance(b, PV)):
                raise Outside('pointer comparison')
            if a.o is not b.o:
                if pred in ('eq', 'ne'):
                    return BV(z3.BoolVal(pred == 'ne'))
                raise Outside('pointer comparison across objects')
            x, y = I(a.off), I(b.off)
            if pred[0] in 'us':
                pred = 's' + pred[1:]
        elif isinstance(a, BV) or isinstance(b, BV):
            if pred == 'eq':
                return BV(a.t == b.t)
            if pred == 'ne':
                return BV(a.t != b.t)
            raise Outside('i1 icmp')
        elif pred in ('eq', 'ne'):
            ca, cb = isinstance(a.t, int), isinstance(b.t, int)
            if (a.sg == 's' or ca) and (b.sg == 's' or cb):
                x, y = self.s(a), self.s(b)
            else:
                x, y = self.un(a), self.un(b)
        elif pred[0] == 's':
            x, y = self.s(a), self.s(b)
        else:
            x, y = self.un(a), self.un(b)
        x, y = I(x), I(y)
        p = pred[-2:]
        t = {'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
             'lt': lambda: x < y, 'le': lambda: x <= y}[p]()
        self.u.keep.append(t)
        return BV(t)

    def cast(self, st, op, ty, v, to, where):
        to = self.mod.resolve(to)
        if v is UNDEF:
            return UNDEF
        u = self.u
        if op == 'sext':
            if isinstance(v, BV):
                return IV(to[1], self.s(v))
            return IV(to[1], self.s(v), 's')
        if op == 'zext':
            if isinstance(v, BV):
                t = z3.simplify(v.t)
                if z3.is_true(t) or z3.is_false(t):
                    return IV(to[1], int(z3.is_true(t)))
                r = IV(to[1], z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), 's')
                u.keep.append(r.t)
                return r
            t = self.un(v)
            return IV(to[1], t, 's' if isinstance(t, int) or to[1] > v.w else 'u')
        if op == 'trunc':
            if isinstance(v, BN):
                for o, s, x in v.cells:
                    if o == 0 and s * 8 == to[1]:
                        return x
                raise Outside('trunc of coerced struct')
            if to[1] == 1:
                return self.tobool(v)
            if isinstance(v.t, int):
                return IV(to[1], wrap_s(v.t, to[1]))
            return self.norm(st, to[1], v.t, v.sg, where)
        if op == 'ptrtoint' and isinstance(v, PV):
            return v
        if op == 'inttoptr' and isinstance(v, PV):
            return v
        return self.fcast(st, op, ty, v, to, where)

    def fcast(self, st, op, ty, v, to, where):
        if op in ('sitofp', 'uitofp') and isinstance(v, (IV, BV)):
            return FV(to[0], self.u.rn(to[0], self.s(v) if op == 'sitofp' else self.un(v)))
        if op in ('fpext', 'fptrunc') and isinstance(v, FV):
            return FV(to[0], self.u._fp('FP_from_%s' % v.k, to[0], [v.t]))
        if op == 'bitcast' and isinstance(v, FV) and to[0] == 'int':
            return self.float_bits(st, v, to[1])
        if op == 'bitcast' and isinstance(v, IV) and to[0] in softfp.FMT and softfp.FMT[to[0]][0] == v.w:
            return FV(to[0], self.un(v))
        raise Outside('cast ' + op)

    # ---- builtins
    def builtin(self, st, name, dem, args, where):
        n = name[1:]
        if n.startswith('llvm.'):
            b = n.split('.')[1]
            if b in ('memcpy', 'memmove'):
                self.memcpy(st, args[0], args[1], self.un(args[2]), where)
                return [('ret', st, None)]
            if b == 'memset':
                self.memset(st, args[0], self.un(args[1]), self.un(args[2]), where)
                return [('ret', st, None)]
            if b in ('lifetime', 'dbg', 'assume', 'experimental'):
                if b == 'assume':
                    self.u.oblige('llvm.assume', where, st.H, args[0].t)
                return [('ret', st, None)]
            if b == 'expect':
                return [('ret', st, args[0])]
            if b == 'cttz':
                x = self.un(args[0])
                if isinstance(x, int):
                    return [('ret', st, IV(args[0].w, (x & -x).bit_length() - 1 if x else args[0].w))]
                if z3.is_true(z3.simplify(args[1].t)):
                    self.u.oblige('cttz of zero', where, st.H, x != 0)
                    self.assume(st, x != 0)
                    return [('ret', st, IV(args[0].w, self.u.ctz(x)[0], 's'))]
                r = z3.If(x == 0, z3.IntVal(args[0].w), self.u.ctz(x)[0])
                self.u.keep.append(r)
                return [('ret', st, IV(args[0].w, r, 's'))]
            if b in ('smul', 'sadd', 'ssub', 'umul', 'uadd', 'usub'):
                f = {'mul': lambda x, y: x * y, 'add': lambda x, y: x + y, 'sub': lambda x, y: x - y}[b[1:]]
                w = args[0].w
                sg = b[0]
                r = f(self.s(args[0]), self.s(args[1])) if sg == 's' else f(self.un(args[0]), self.un(args[1]))
                lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if sg == 's' else (0, 2 ** w - 1)
                v = self.norm(st, w, r, sg, where)
                ov = z3.Not(z3.And(lo <= I(r), I(r) <= hi))
                return [('ret', st, AG([v, BV(ov)]))]
            if b == 'abs':
                x = self.s(args[0])
                w = args[0].w
                self.u.oblige('signed overflow', where, st.H, I(x) != -2 ** (w - 1), 'abs')
                self.assume(st, I(x) != -2 ** (w - 1))
                return [('ret', st, IV(w, abs(x) if isinstance(x, int) else z3.If(x < 0, -x, x), 's'))]
            if b == 'trap':
                self.u.oblige('trap', where, st.H, z3.BoolVal(False))
                return []
            raise Outside('intrinsic ' + n)
        if n in ('_ZSt9terminatev', '__clang_call_terminate', 'abort'):
            self.u.oblige('terminate', where, st.H, z3.BoolVal(False))
            return []
        if n in ('__cxa_throw',):
            return [('throw', st, None)]
        if n == '__cxa_allocate_exception':
            o = self.alloc(st, self.un(args[0]), 'heap', 'exception')
            return [('ret', st, PV(o, 0))]
        if n.startswith('_ZSt') and '__throw_' in n:
            return [('throw', st, None)]
        if n.startswith(('_ZNSo', '_ZNSi', '_ZStls', '_ZStrs', '_ZNKSt9basic_ios', 'vc_')):
            r = streams.call(self, st, n, args, where)
            if r is not None:
                return r
        if n in ('memchr', 'memcmp', 'strlen', 'bcmp'):
            return self.libc(st, n, args, where)
        r = self.trusted_contract(st, n, dem, args, where)
        return r

    def bytes_at(self, st, p, n):
        """the n bytes at p: integers or terms"""
        if p.o.kind == 'str':
            return [self.u.strs.ch(p.off + i) for i in range(n)]
        cs = self.cells(st, p.o)
        out = []
        for i in range(n):
            c = cs.get(p.off + i)
            if c is None or c[0] != 1:
                raise Outside('bytes of ' + p.o.name)
            out.append(self.s(c[1]))
        return out

    def libc(self, st, n, args, where):
        """contracts assumed for the C library's byte searches"""
        self.u.trusted.add(n)
        p = args[0]
        if n == 'strlen' and isinstance(p, PV) and p.o is not None and p.o.kind == 'str' and getattr(p.o, 'nul', None) is not None:
            # the position of the NUL is the only one in the object: strlen of any position up to it
            g = z3.And(p.o.extra[0] <= p.off, p.off <= p.o.nul)
            self.u.oblige('bounds', where, st.H, g)
            self.assume(st, g)
            return [('ret', st, IV(64, sm_(I(p.o.nul) - p.off), 'u'))]
        if n == 'strlen':
            cs = self.cells(st, p.o) if isinstance(p, PV) and p.o is not None and p.o.kind == 'const' else None
            if cs is None or not isinstance(p.off, int):
                raise Outside('strlen of a symbolic string')
            i = p.off
            while True:
                c = cs.get(i)
                if c is None or c[0] != 1 or not isinstance(c[1].t, int):
                    raise Outside('strlen')
                if c[1].t == 0:
                    return [('ret', st, IV(64, i - p.off))]
                i += 1
        m = sm_(self.un(args[2]))
        if n in ('memcmp', 'bcmp'):
            if not isinstance(m, int) or m > 64:
                raise Outside('symbolic memcmp')
            q = args[1]
            if m == 0:
                return [('ret', st, IV(32, 0))]
            if not self.chk(st, p, m, where) or not self.chk(st, q, m, where):
                return []
            eq = z3.And([I(a) == I(b) for a, b in zip(self.bytes_at(st, p, m), self.bytes_at(st, q, m))])
            r = self.u.fresh('memcmp', -2 ** 31, 2 ** 31 - 1)
            self.u.fact([r], r != 0)
            self.u.strsyms.add(r.get_id())
            t = z3.If(eq, z3.IntVal(0), r)
            self.u.keep.append(t)
            return [('ret', st, IV(32, t))]
        if not isinstance(p, PV) or p.o is None or p.o.kind != 'str':
            raise Outside('memchr in ' + repr(p))
        c = self.s(args[1])
        if not isinstance(c, int):
            raise Outside('memchr of a symbolic character')
        c = wrap_s(c, 8)
        self.u.oblige('bounds', where, st.H, z3.Or(I(m) == 0, z3.And(p.o.extra[0] <= p.off, p.off + m <= p.o.extra[1])))
        end = sm_(p.off + m)
        t = self.u.strs.find(c, p.off, end)
        out = []
        for cond, v in ((t < end, PV(p.o, t)), (t >= end, PV(None, 0))):
            s2 = st.fork()
            self.assume(s2, cond)
            if self.feasible(s2):
                out.append(('ret', s2, v))
        return out

    def trusted_contract(self, st, n, dem, args, where):
        """contracts assumed for libstdc++ (not verified here)"""
        m = re.match(r'^(?:std::common_type<.*>::type )?std::(gcd|lcm)<([^<>]*), ([^<>]*)>\(', dem)
        if m:
            T1, T2 = canon_type(m.group(2)), canon_type(m.group(3))
            if T1 not in INTS or T2 not in INTS or not isinstance(args[0], IV) or not isinstance(args[1], IV):
                return None
            w = max(width(T1), width(T2))
            # usual arithmetic conversions
            sgn = signed(T1) and signed(T2) if width(T1) == width(T2) else (signed(T1) if width(T1) > width(T2) else signed(T2))
            T = [k for k, v in INTS.items() if v == (w, sgn)][0]
            vs = []
            for x, t in ((args[0], T1), (args[1], T2)):
                v = self.s(x) if signed(t) else self.un(x)
                vs.append(v)
                if signed(t):
                    mx = tmax(t)
                    if not isinstance(v, int):
                        g = z3.And(-mx <= v, v <= mx)
                        self.u.oblige('precondition of std::%s' % m.group(1), where, st.H, g, '|argument| representable')
                        self.assume(st, g)
            gv = self.u.gcd(vs[0], vs[1])
            if m.group(1) == 'gcd':
                r = gv.g
            else:
                r = gv.lcm()
                if not isinstance(r, int):
                    ok = z3.And(r >= 0, r <= tmax(T))
                    self.u.oblige('precondition of std::lcm', where, st.H, r <= tmax(T), 'result representable')
                    self.assume(st, ok)
            if not isinstance(r, int):
                self.u.keep.append(r)
            self.u.trusted.add('std::' + m.group(1))
            return [('ret', st, IV(w, r, 's' if sgn else 'u'))]
        return None

    # ---- contracts
    def by_contract(self, st, ct, fname, args, where):
        f_ret = self.mod.funcs[fname].ret if fname in self.mod.funcs else None
        if f_ret is None:
            raise NotApplicable()
        f = self.mod.funcs[fname]
        a, sret = self.decode_args(st, ct, f, args, where)
        S = self.u.S
        self.u.callees[ct.key] = (ct, fname)
        for label, th in ct.requires(S, *a):
            g = S.clause(th)
            self.u.oblige('precondition', where, st.H, g, '%s: %s' % (ct.title, label))
            st.H.append(g)
        if ct.key == self.u.key:
            m = ct.measure(S, *a)
            self.u.oblige('termination', where, st.H, z3.And(m >= 0, m < self.u.entry_measure), ct.title)
        res = None
        if ct.shortcut is not None:
            # the contract's own consequence: under cond the result is v
            cond, v = ct.shortcut(S, *a)
            if self.prove(st, B(cond)):
                res = v
        if res is None:
            res = ct.exact(S, *a)
        if res is None:
            res = self.fresh_res(ct)
        for cl in ct.ensures(S, *a, res):
            g = S.clause(cl[-1])
            if not z3.is_true(g.o):
                st.H.append(g)
        v = self.encode_res(st, ct, f, res, sret)
        return [('ret', st, v)]

    def decode_args(self, st, ct, f, args, where):
        i = 0
        sret = None
        if f.params and 'sret' in f.params[0][2]:
            sret = args[0]
            i = 1
        if ct.this:
            sret = args[i]
            i += 1
        out = []
        for (name, kind, T) in ct.params:
            if i >= len(args):
                raise NotApplicable()
            v = args[i]
            if kind == 'G':
                if isinstance(v, PV):
                    n, q = self.load(st, v, ity(64), where), self.load(st, PV(v.o, v.off + 8), PTR, where)
                else:
                    if i + 1 >= len(args):
                        raise NotApplicable()
                    n, q = v, args[i + 1]
                    i += 1
                if not isinstance(n, IV) or not isinstance(q, PV):
                    raise NotApplicable()
                m = self.un(n)
                if q.o is None:
                    if isinstance(m, int) and m == 0 or self.prove(st, I(m) == 0):
                        out.append(Str(None, I(0), I(0)))
                    else:
                        raise NotApplicable()
                elif q.o is self.u.strobj:
                    out.append(Str(q.o, I(sm_(q.off)), I(sm_(q.off + m))))
                else:
                    raise NotApplicable()
            elif kind == 'F':
                sz = width(T) // 8
                if isinstance(v, PV):
                    n = self.load(st, v, ity(width(T)), where)
                    d = self.load(st, PV(v.o, v.off + sz), ity(width(T)), where)
                elif isinstance(v, BN):
                    n, d = v.cells[0][2], v.cells[1][2]
                elif isinstance(v, IV) and width(T) == 64 and i + 1 < len(args):
                    n, d = v, args[i + 1]
                    i += 1
                else:
                    raise NotApplicable()
                if not isinstance(n, IV) or not isinstance(d, IV):
                    raise NotApplicable()
                out.append(F(self.as_T(n, T), self.as_T(d, T)))
            elif kind == 'R':
                if isinstance(v, PV):
                    v = self.load(st, v, ity(width(T)), where)
                if not isinstance(v, IV):
                    raise NotApplicable()
                out.append(self.as_T(v, T))
            else:
                out.append(self.decode_kind(st, kind, T, v, where))
            i += 1
        if i != len(args):
            raise NotApplicable()
        return out, sret

    def decode_kind(self, st, kind, T, v, where):
        raise NotApplicable()

    def as_T(self, v, T):
        return self.s(v) if signed(T) else self.un(v)

    def fresh_T(self, name, T):
        return self.u.fresh(name, tmin(T), tmax(T))

    def fresh_res(self, ct):
        kind, T = ct.res
        if kind == 'F':
            return F(self.fresh_T('res_n', T), self.fresh_T('res_d', T))
        if kind == 'R':
            return self.fresh_T('res', T)
        if kind == 'M':
            return M(self.fresh_T('res_w', T[0]), F(self.fresh_T('res_n', T[1]), self.fresh_T('res_d', T[1])))
        if kind == 'B':
            self.u.n += 1
            b = z3.Bool('resb!%d' % self.u.n)
            self.u.keep.append(b)
            self.u.strsyms.add(b.get_id())
            return b
        raise NotApplicable()

    def encode_res(self, st, ct, f, res, sret):
        kind, T = ct.res
        if kind == 'M':
            for off, X, x in mixed_layout(T, res):
                self.store(st, PV(sret.o, sret.off + off), ity(width(X)), IV(width(X), simp(x), 's' if signed(X) else 'u'), 'this')
            return None
        sg = 's' if kind == 'B' or signed(T) else 'u'
        if kind == 'B':
            return BV(B(res))
        if kind == 'R':
            return IV(width(T), simp(res), sg)
        if kind == 'F':
            w = width(T)
            n, d = IV(w, simp(res.n), sg), IV(w, simp(res.d), sg)
            if sret is not None:
                self.store(st, sret, ity(w), n, 'sret')
                self.store(st, PV(sret.o, sret.off + w // 8), ity(w), d, 'sret')
                return None
            if f.ret[0] == 'int' and f.ret[1] == 2 * w:
                return BN(2 * w // 8, [(0, w // 8, n), (w // 8, w // 8, d)])
            if self.mod.resolve(f.ret)[0] == 'struct':
                return AG([n, d])
        raise NotApplicable()


class NotApplicable(Exception):
    pass


def mixed_layout(T, m=None):
    """(offset, type, term) of the scalars of a mixed number"""
    a, b = width(T[0]) // 8, width(T[1]) // 8
    o = (a + b - 1) // b * b
    return [(0, T[0], m and m.w), (o, T[1], m and m.f.n), (o + b, T[1], m and m.f.d)]


def sm_(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t, som=True)
    return t.as_long() if z3.is_int_value(t) else t


def simp(t):
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return t


def wrap_s(v, w):
    v %= 2 ** w
    return v - 2 ** w if v >= 2 ** (w - 1) else v
