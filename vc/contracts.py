"""Contracts of the functions of Ieme, in terms of exact rational arithmetic, and the registry that finds the contract
of a function from its demangled name."""
import re
from spec import *

ARITH = ('plus', 'minus', 'multiplies', 'divides', 'modulus')
CMP = ('equal_to', 'not_equal_to', 'less', 'less_equal', 'greater', 'greater_equal')
SYMBOL = dict(plus='+', minus='-', multiplies='*', divides='/', modulus='%', equal_to='==', not_equal_to='!=', less='<',
              less_equal='<=', greater='>', greater_equal='>=')
VALPROP = dict(plus='C01', minus='C01', multiplies='C02', divides='C02', negate='C02', modulus='C03')


# ---------------------------------------------------------------- demangled names
def split_top(s, seps=','):
    out, depth, cur = [], 0, ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            depth -= 1
        if c in seps and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_dem(dem):
    """-> (qualified name without template arguments of the last component, template args, parameter types) or None"""
    if 'operator' in dem or '{lambda' in dem or "'lambda" in dem:
        return None
    d = dem
    if d.endswith(' const'):
        d = d[:-6]
    if not d.endswith(')'):
        return None
    depth = 0
    i = len(d) - 1
    while i >= 0:
        if d[i] in ')>]':
            depth += 1
        elif d[i] in '(<[':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    args = split_top(d[i + 1:-1])
    head = d[:i]
    # drop the return type
    depth, cut = 0, 0
    for k, c in enumerate(head):
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        elif c == ' ' and depth == 0:
            cut = k + 1
    head = head[cut:]
    targs = []
    if head.endswith('>'):
        depth = 0
        j = len(head) - 1
        while j >= 0:
            if head[j] == '>':
                depth += 1
            elif head[j] == '<':
                depth -= 1
                if depth == 0:
                    break
            j -= 1
        targs = split_top(head[j + 1:-1])
        head = head[:j]
    return head, targs, args


def strip_cv(t):
    t = t.strip()
    for suf in ('&', '&'):
        if t.endswith(suf):
            t = t[:-1].strip()
    if t.endswith(' const'):
        t = t[:-6].strip()
    if t.startswith('const '):
        t = t[6:].strip()
    return t


def arg_kind(t):
    """-> ('F', T) | ('R', T) | None"""
    t = strip_cv(t)
    m = re.match(r'^ieme::(?:raw_fraction|fraction)<([^<>,]+)[,>]', t)
    if m:
        T = canon_type(m.group(1))
        return ('F', T) if T in INTS else None
    T = canon_type(t)
    if T in INTS:
        return ('R', T)
    return None


def is_view(t):
    return strip_cv(t).startswith('std::basic_string_view<char,')


# ---------------------------------------------------------------- policies
class Policy:
    def __init__(self, base, layers=()):
        """layers: outermost first, each ('i'|'o', mode) with mode 0 normalize signs, 1 ignore signs"""
        self.base, self.layers = base, tuple(layers)

    @staticmethod
    def parse(s):
        s = s.strip()
        m = re.match(r'^(?:ieme::ops::)?(safe|fast)$', s)
        if m:
            return Policy(m.group(1))
        m = re.match(r'^(?:ieme::ops::)?reduced_(input|output)<(.*), \(ieme::reduce_mode\)(\d)>$', s)
        if not m:
            return None
        inner = Policy.parse(m.group(2))
        if inner is None:
            return None
        return Policy(inner.base, ((m.group(1)[0], int(m.group(3))),) + inner.layers)

    def cpp(self):
        if not self.layers:
            return 'ieme::ops::' + self.base
        k, m = self.layers[0]
        return 'ieme::ops::reduced_%s<%s, ieme::reduce_mode::%s>' % (
            {'i': 'input', 'o': 'output'}[k], Policy(self.base, self.layers[1:]).cpp(),
            ('normalize_signs', 'ignore_signs')[m])

    def __str__(self):
        return self.base + ''.join('.%s%d' % l for l in self.layers)

    def inner(self):
        return Policy(self.base, self.layers[1:])

    def canon(self):
        """None, or the sign mode of the canonical results"""
        for k, m in self.layers:
            if k == 'o':
                return m
        return None

    def reduces_input(self):
        return any(k == 'i' for k, m in self.layers)


ALIASES = {
    'safe': Policy('safe'), 'safe_reduced_i': Policy('safe', (('i', 1),)), 'safe_reduced_o': Policy('safe', (('o', 0),)),
    'safe_reduced_io': Policy('safe', (('i', 1), ('o', 0))), 'fast': Policy('fast'), 'fast_reduced_i': Policy('fast', (('i', 1),)),
    'fast_reduced_o': Policy('fast', (('o', 0),)), 'fast_reduced_io': Policy('fast', (('i', 1), ('o', 0))),
}


def as_f(x):
    return x if isinstance(x, F) else F(x, 1)


def redmode(S, f, mode):
    return S.red(f) if mode == 1 else S.redn(f)


def pre_fit(S, P, op, T, l, r):
    """the representation conditions under which the policy promises an exact outcome: [(label, thunk)]"""
    fit = lambda x: S.fits(T, x)
    if P.layers:
        k, m = P.layers[0]
        if k == 'i':
            l = redmode(S, l, m) if isinstance(l, F) else l
            r = redmode(S, r, m) if isinstance(r, F) else r
        return pre_fit(S, P.inner(), op, T, l, r)
    if op == 'negate':
        return []
    if op == 'not_equal_to':
        op = 'equal_to'
    if op in ('greater', 'greater_equal'):
        l, r = r, l
    lf, rf = isinstance(l, F), isinstance(r, F)
    L, R = as_f(l), as_f(r)
    out = []

    def need(label, *ts):
        out.append((label, lambda: S.And(*[fit(t()) for t in ts])))
    cmpop = op in CMP
    if op == 'multiplies':
        if lf and rf:
            need('products fit', lambda: L.n * R.n, lambda: L.d * R.d)
        else:
            need('product fits', lambda: L.n * R.n)
    elif op == 'divides':
        if lf and rf:
            need('products fit', lambda: L.n * R.d, lambda: L.d * R.n)
        elif lf:
            need('product fits', lambda: L.d * R.n)
        else:
            need('product fits', lambda: L.n * R.d)
    elif lf and rf:
        if P.base == 'safe':
            df = lambda: S.And(L.d != 0, R.d != 0)
            lc = lambda: S.lcm(L.d, R.d)
            a = lambda: S.lcof(L.d, R.d) * L.n
            c = lambda: S.lcof(R.d, L.d) * R.n
            out.append(('least common denominator and rescaled numerators fit',
                        lambda: S.Implies(df(), S.And(fit(lc()), fit(a()), fit(c())))))
            if op == 'plus':
                out.append(('sum fits', lambda: S.Implies(df(), fit(a() + c()))))
            if op == 'minus':
                out.append(('difference fits', lambda: S.Implies(df(), fit(a() - c()))))
        else:
            need('cross products fit', lambda: L.n * R.d, lambda: R.n * L.d)
            if not cmpop:
                need('product of the denominators fits', lambda: L.d * R.d)
            if op == 'plus':
                need('sum fits', lambda: L.n * R.d + R.n * L.d)
            if op == 'minus':
                need('difference fits', lambda: L.n * R.d - R.n * L.d)
    else:
        need('rescaled integer fits', (lambda: R.n * L.d) if lf else (lambda: L.n * R.d))
        if op == 'plus':
            need('sum fits', (lambda: L.n + R.n * L.d) if lf else (lambda: L.n * R.d + R.n))
        if op == 'minus':
            need('difference fits', (lambda: L.n - R.n * L.d) if lf else (lambda: L.n * R.d - R.n))
    return out


def pre_components(S, T, *xs):
    out = []
    for i, x in enumerate(xs):
        if isinstance(x, F):
            out.append(('operand %d: component magnitudes representable' % (i + 1), lambda x=x: S.ffits(T, x)))
        else:
            out.append(('operand %d: magnitude representable' % (i + 1), lambda x=x: S.fits(T, x)))
    return out


def is_def(S, op, l, r):
    L, R = as_f(l), as_f(r)
    c = [x.d != 0 for x in (l, r) if isinstance(x, F)]
    if op in ('divides', 'modulus'):
        c.append(R.n != 0)
    return S.And(*c)


def post_arith(S, P, op, T, l, r, res, internal=False):
    """[(label, properties, thunk)]"""
    L, R = as_f(l), as_f(r)
    V = S.val
    vp = VALPROP[op]
    out = [('result is defined exactly when the operation is', (vp, 'C07'), lambda: S.Iff(res.d != 0, is_def(S, op, l, r)))]
    if op == 'plus':
        out.append(('value of the sum', (vp,), lambda: V(res) == V(L) + V(R)))
    elif op == 'minus':
        out.append(('value of the difference', (vp,), lambda: V(res) == V(L) - V(R)))
    elif op == 'multiplies':
        out.append(('value of the product', (vp,), lambda: V(res) == V(L) * V(R)))
    elif op == 'divides':
        out.append(('value of the quotient', (vp,), lambda: V(res) * V(R) == V(L)))
    elif op == 'modulus':
        out.append(('value of the remainder', (vp,), lambda: V(res) == V(L) - S.tquot(L, R) * V(R)))
    out += post_canon(S, P, res)
    out.append(('result component magnitudes are representable', (), lambda: S.ffits(T, res)))
    if op == 'plus' and isinstance(l, F) != isinstance(r, F):
        # reduction never enlarges the components
        w, f = (r, l) if isinstance(l, F) else (l, r)
        for k, m in P.layers:
            if k == 'i':
                f = redmode(S, f, m)
        out.append(('components no larger than those of the unreduced sum', (),
                    lambda: S.And(S.abs(res.n) <= S.abs(w * f.d + f.n), S.abs(res.d) <= S.abs(f.d))))
    return out


def post_canon(S, P, res):
    m = P.canon()
    if m is None:
        return []
    out = [('result in lowest terms', ('C06',), lambda: S.Implies(res.d != 0, S.coprime(res.n, res.d))),
           ('undefined result is 0/0', ('C06',), lambda: S.Implies(res.d == 0, res.n == 0))]
    if m == 0:
        out.append(('result denominator not negative', ('C06',), lambda: res.d >= 0))
    return out


def cmp_rel(S, op, x, y):
    return {'equal_to': lambda: x == y, 'not_equal_to': lambda: x != y, 'less': lambda: x < y, 'less_equal': lambda: x <= y,
            'greater': lambda: x > y, 'greater_equal': lambda: x >= y}[op]()


def post_cmp(S, op, l, r, res):
    L, R = as_f(l), as_f(r)
    df = lambda: S.And(*[x.d != 0 for x in (l, r) if isinstance(x, F)])
    return [('agrees with the rational order', ('C04',), lambda: S.Iff(res, cmp_rel(S, op, S.val(L), S.val(R)))),
            ('undefined operand', ('C04', 'C07'), lambda: S.Implies(S.Not(df()), S.Iff(res, op == 'not_equal_to')))]


class Contract:
    measure = None
    this = False
    inline = None
    shortcut = None
    flinks = False
    cases = None          # a complete case split on parameters, established by requires

    def exact(self, S, *a):
        return None

    def requires(self, S, *a):
        return []


class OpContract(Contract):
    def __init__(self, P, op, kinds, T):
        self.P, self.op, self.T = P, op, T
        self.key = ('op', str(P), op, ''.join(kinds), T)
        self.title = '%s::%s(%s) over %s' % (P, op, ','.join({'F': 'fraction', 'R': 'integer'}[k] for k in kinds), T)
        self.params = [('lr'[i], k, T) for i, k in enumerate(kinds)]
        self.res = ('B', None) if op in CMP else ('F', T)

    def requires(self, S, *a):
        l, r = (a[0], None) if len(a) == 1 else a
        return pre_components(S, self.T, *a) + pre_fit(S, self.P, self.op, self.T, l, r)

    def ensures(self, S, *a):
        res = a[-1]
        if self.op == 'negate':
            v = a[0]
            return [('defined exactly when the operand is', ('C02', 'C07'), lambda: S.Iff(res.d != 0, v.d != 0)),
                    ('value of the negation', ('C02',), lambda: S.val(res) == -S.val(v)),
                    ('result component magnitudes are representable', (), lambda: S.ffits(self.T, res))] + \
                post_canon(S, self.P, res)
        if self.op in CMP:
            return post_cmp(S, self.op, a[0], a[1], res)
        return post_arith(S, self.P, self.op, self.T, a[0], a[1], res)


class ReduceContract(Contract):
    """reduce_ignore_signs / reduce_normalize_signs / reduce(value, mode)"""

    def __init__(self, name, T):
        self.name, self.T = name, T
        self.key = ('reduce', name, T)
        self.title = '%s over %s' % (name, T)
        self.params = [('f', 'F', T)] + ([('mode', 'E', 'int')] if name == 'reduce' else [])
        self.res = ('F', T)

    def requires(self, S, f, mode=None):
        out = pre_components(S, self.T, f)
        if mode is not None:
            out.append(('mode is an enumerator', lambda: S.Or(mode == 0, mode == 1)))
        return out

    def exact(self, S, f, mode=None):
        if self.name == 'reduce_ignore_signs':
            return S.red(f)
        if self.name == 'reduce_normalize_signs':
            return S.redn(f)
        return S.If(mode == 0, S.redn(f), S.red(f))

    def ensures(self, S, f, *rest):
        res = rest[-1]
        e = self.exact(S, f, *rest[:-1])
        return [('result is the canonical form', ('C05',), lambda: S.And(res.n == e.n, res.d == e.d)),
                ('value preserved', ('C05',), lambda: S.val(res) == S.val(f)),
                ('lowest terms', ('C05',), lambda: S.Implies(f.d != 0, S.coprime(res.n, res.d)))]


class WholeContract(Contract):
    """trunc, ceil, floor, round of a fraction"""

    def __init__(self, name, T):
        self.name, self.T = name, T
        self.key = ('whole', name, T)
        self.title = '%s over %s' % (name, T)
        self.params = [('f', 'F', T)]
        self.res = ('R', T)

    def requires(self, S, f):
        return pre_whole(S, self.name, self.T, f)

    def exact(self, S, f):
        return S.tdiv(f.n, f.d) if self.name == 'trunc' else None

    def ensures(self, S, f, res):
        return [('quotient of the components', ('C08',), lambda: res == S.tdiv(f.n, f.d))] * (self.name == 'trunc') + post_whole(S, self.name, f, res) + [
            ('magnitude at most that of the numerator', (), lambda: S.abs(res) <= S.abs(f.n)),
            ('zero numerator', (), lambda: S.Implies(f.n == 0, res == 0))]


def pre_whole(S, name, T, f):
    out = [('defined', lambda: f.d != 0)]
    if signed(T):
        out.append(('whole part representable', lambda: S.Not(S.And(f.n == tmin(T), f.d == -1))))
        if name == 'round':
            out.append(('magnitude of the denominator representable', lambda: S.fits(T, f.d)))
    return out


def post_whole(S, name, f, res, props=('C08',)):
    V = S.val
    N = S.num
    if name == 'trunc':
        return [('integer part toward zero', props,
                 lambda: S.And(S.Implies(V(f) >= N(0), S.And(N(res) <= V(f), V(f) < N(res) + N(1))),
                               S.Implies(V(f) <= N(0), S.And(N(res) >= V(f), V(f) > N(res) - N(1)))))]
    if name == 'ceil':
        return [('least integer not below the value', props, lambda: S.And(V(f) <= N(res), N(res) - N(1) < V(f)))]
    if name == 'floor':
        return [('greatest integer not above the value', props, lambda: S.And(N(res) <= V(f), V(f) < N(res) + N(1)))]
    h = Fraction(1, 2)
    return [('floor of the value plus one half', props, lambda: S.And(N(res) - N(h) <= V(f), V(f) < N(res) + N(h)))]


class PowContract(Contract):
    """math_utilities::pow: integer power by repeated squaring; recursion measured by the exponent"""

    def __init__(self, T):
        self.T = T
        self.key = ('pow', T)
        self.title = 'math_utilities::pow over %s' % T
        self.params = [('base', 'R', T), ('exponent', 'R', T)]
        self.res = ('R', T)

    def measure(self, S, b, e):
        return e

    def requires(self, S, b, e):
        return [('exponent not negative', lambda: e >= 0), ('power representable', lambda: S.infull(self.T, S.pow(b, e)))]

    def exact(self, S, b, e):
        return S.pow(b, e)

    def ensures(self, S, b, e, res):
        return [('exact power', ('C10',), lambda: res == S.pow(b, e))]


def canonical_mixed(S, m):
    n, d = m.f.n, m.f.d
    return S.And(S.abs(n) < S.abs(d), S.Implies(m.w > 0, S.Or(n == 0, S.Iff(n > 0, d > 0))), S.Implies(m.w < 0, S.Or(n == 0, S.Iff(n > 0, d < 0))))


def post_mixed(S, p, m):
    V, N = S.val, S.num
    return [('fractional part defined', (p,), lambda: m.f.d != 0),
            ('fractional part of magnitude below one', (p,), lambda: S.And(V(m.f) < N(1), N(-1) < V(m.f))),
            ('signs of the parts do not oppose', (p,), lambda: S.And(S.Implies(m.w > 0, V(m.f) >= N(0)), S.Implies(m.w < 0, V(m.f) <= N(0))))]


def frac_rem(S, P, f, t):
    """f - t (t the truncated value of f) as the policy computes it, in components"""
    if not P.layers:
        return F(f.n - t * f.d, f.d)
    k, m = P.layers[0]
    if k == 'i':
        return frac_rem(S, P.inner(), redmode(S, f, m), t)
    return redmode(S, frac_rem(S, P.inner(), f, t), m)



class AbsContract(Contract):
    """math_utilities::abs"""

    def __init__(self, T):
        self.T = T
        self.key = ('abs', T)
        self.title = 'math_utilities::abs over %s' % T
        self.params = [('value', 'R', T)]
        self.res = ('R', T)

    def requires(self, S, x):
        return [('magnitude representable', lambda: S.fits(self.T, x))]

    def exact(self, S, x):
        return S.abs(x)

    def ensures(self, S, x, res):
        return [('absolute value', (), lambda: res == S.abs(x))]


QUERIES = ('is_defined', 'is_undefined', 'is_positive', 'is_non_negative', 'is_zero', 'is_non_positive', 'is_negative', 'is_integer',
           'is_unit_fraction', 'is_proper', 'is_improper')


class QueryContract(Contract):
    """classification queries, in components"""

    def __init__(self, name, T):
        self.name, self.T = name, T
        self.key = ('query', name, T)
        self.title = '%s over %s' % (name, T)
        self.params = [('f', 'F', T)]
        self.res = ('B', None)

    def requires(self, S, f):
        T = self.T
        if not signed(T):
            return []
        if self.name in ('is_proper', 'is_improper'):
            return pre_components(S, T, f)
        if self.name == 'is_integer':
            return [('no overflowing division', lambda: S.Not(S.And(f.n == tmin(T), f.d == -1)))]
        if self.name == 'is_unit_fraction':
            return [('no overflowing division', lambda: S.Not(S.And(f.d == tmin(T), f.n == -1)))]
        return []

    def exact(self, S, f):
        n, d = f.n, f.d
        pos = lambda: S.Or(S.And(n > 0, d > 0), S.And(n < 0, d < 0))
        neg = lambda: S.Or(S.And(n > 0, d < 0), S.And(n < 0, d > 0))
        zero = lambda: S.And(n == 0, d != 0)
        rem = lambda a, b: S.trem(a, b) == 0
        return dict(
            is_defined=lambda: d != 0, is_undefined=lambda: d == 0, is_positive=pos, is_negative=neg, is_zero=zero,
            is_non_negative=lambda: S.Or(pos(), zero()), is_non_positive=lambda: S.Or(neg(), zero()),
            is_integer=lambda: S.And(d != 0, rem(n, d)), is_unit_fraction=lambda: S.And(d != 0, n != 0, rem(d, n)),
            is_proper=lambda: S.abs(n) < S.abs(d), is_improper=lambda: S.abs(n) >= S.abs(d))[self.name]()

    def ensures(self, S, f, res):
        return [('agrees with the components', ('C13',), lambda: S.Iff(res, self.exact(S, f)))]


class MixedContract(Contract):
    """constructors of mixed_number: the object constructed is the result"""
    this = True
    flinks = True

    def __init__(self, form, P, W, T, O=None):
        self.form, self.P, self.W, self.T, self.O = form, P, W, T, O
        self.key = ('mixed', form, str(P), W, T, O)
        self.title = 'mixed_number(%s) under %s (whole %s, fraction %s)' % ('whole, fractional' if form == 'parts' else 'fraction over ' + O, P, W, T)
        self.params = [('whole', 'R', W), ('fractional', 'F', T)] if form == 'parts' else [('value', 'F', O)]
        self.res = ('M', (W, T))
        self.shortcut = self.kept if form == 'parts' else None

    def kept(self, S, w, f):
        return canonical_mixed(S, M(w, f)), M(w, f)

    def inline(self, ct, stack):
        # the component sizes of the remainder are needed, not only its value
        return self.form == 'frac' and ct.key[0] == 'op' and ct.key[3] == 'FR'

    def requires(self, S, *a):
        W, T = self.W, self.T
        if self.form == 'parts':
            return pre_mixed_parts(S, W, T, *a)
        return pre_mixed_frac(S, W, T, self.O, *a)

    def exact(self, S, *a):
        if self.form == 'parts':
            return None
        t = S.tdiv(a[0].n, a[0].d)
        return M(t, frac_rem(S, self.P, a[0], t))

    def ensures(self, S, *a):
        V, N = S.val, S.num
        r = a[-1]
        out = post_mixed(S, 'C11', r) + [('magnitudes representable', (), lambda: S.ffits(self.T, r.f))]
        if self.form == 'parts':
            w, f = a[:-1]
            out.append(('value kept', ('C11',), lambda: N(r.w) + V(r.f) == N(w) + V(f)))
            # in components, for callers that go on computing with them
            out.append(('parts already canonical are kept', (), lambda: S.Implies(canonical_mixed(S, M(w, f)), S.And(r.w == w, r.f.n == f.n, r.f.d == f.d))))
            out.append(('canonical in components', (), lambda: canonical_mixed(S, r)))
        else:
            e = self.exact(S, a[0])
            out.append(('value kept', ('C11',), lambda: N(r.w) + V(r.f) == V(a[0])))
            out.append(('truncated value and remainder', (), lambda: S.And(r.w == e.w, r.f.n == e.f.n, r.f.d == e.f.d)))
            out.append(('canonical in components', (), lambda: canonical_mixed(S, r)))
        return out


def pre_mixed_parts(S, W, T, w, f):
    t = lambda: S.tdiv(f.n, f.d)
    return pre_components(S, T, f) + [('defined', lambda: f.d != 0), (
        'carry and sum of the whole parts representable', lambda: S.Implies(f.d != 0, S.And(S.infull(W, t()), S.infull(W, w + t()))))]


def pre_mixed_frac(S, W, T, O, f):
    return pre_components(S, O, f) + [
        ('defined', lambda: f.d != 0),
        ('whole part representable', lambda: S.Implies(f.d != 0, S.infull(W, S.tdiv(f.n, f.d)))),
        ('denominator and remainder representable', lambda: S.Implies(f.d != 0, S.And(S.fits(T, f.d), S.fits(T, S.trem(f.n, f.d)))))]


class DigitsContract(Contract):
    """parse_utilities::is_valid_digit_sequence"""

    def __init__(self):
        self.key = ('digits',)
        self.title = 'is_valid_digit_sequence'
        self.params = [('sequence', 'G', None), ('base', 'R', 'int')]
        self.res = ('B', 'bool')
        self.cases = [{'base': 10}, {'base': 16}]

    def requires(self, S, s, base):
        return [('base ten or sixteen', lambda: S.Or(base == 10, base == 16))]

    def ensures(self, S, s, base, res):
        return [('true exactly for digit sequences', ('C18',), lambda: S.Iff(res, S.digits(s, base)))]


class DigitValueContract(Contract):
    """parse_utilities::digit_sequence_to_int"""

    def __init__(self, T):
        self.T = T
        self.key = ('digitval', T)
        self.title = 'digit_sequence_to_int over %s' % T
        self.params = [('sequence', 'G', None), ('base', 'R', T)]
        self.res = ('R', T)
        self.cases = [{'base': 10}, {'base': 16}]

    def requires(self, S, s, base):
        return [('base ten or sixteen', lambda: S.Or(base == 10, base == 16)),
                ('empty or a digit sequence', lambda: S.Or(S.strlen(s) == 0, S.digits(s, base))),
                ('value representable', lambda: S.digitval(s, base) <= tmax(self.T))]

    def shortcut(self, S, s, base):
        return S.strlen(s) == 0, 0

    def exact(self, S, s, base):
        return S.digitval(s, base)

    def ensures(self, S, s, base, res):
        return [('value of the digits', ('C19',), lambda: res == S.digitval(s, base))]


class Registry:
    def __init__(self):
        self.cache = {}
        self.disabled = set()
        self.inline_ops = False     # second chance: verify the operations' bodies in place instead of their contracts

    def find(self, fname, dem):
        if fname in self.cache:
            c = self.cache[fname]
        else:
            c = self.cache[fname] = self.lookup(dem)
        if c is not None and (c.key in self.disabled or (self.inline_ops and isinstance(c, (OpContract, MixedContract)))):
            return None
        return c

    def lookup(self, dem):
        p = parse_dem(dem)
        if p is None:
            return None
        name, targs, args = p
        if name.startswith('ieme::ops::'):
            i = name.rfind('::')
            op = name[i + 2:]
            P = Policy.parse(name[:i])
            if P is None or op not in ARITH + CMP + ('negate',):
                return None
            ks = [arg_kind(a) for a in args]
            if None in ks or len(set(k[1] for k in ks)) != 1 or len(ks) != (1 if op == 'negate' else 2):
                return None
            if not any(k[0] == 'F' for k in ks):
                return None
            T = ks[0][1]
            if width(T) < 32:
                return None
            return OpContract(P, op, [k[0] for k in ks], T)
        if name in ('ieme::reduce', 'ieme::reduce_ignore_signs', 'ieme::reduce_normalize_signs'):
            if not args or not args[0].startswith('ieme::raw_fraction<'):
                return None
            k = arg_kind(args[0])
            if k is None or width(k[1]) < 32:
                return None
            if name == 'ieme::reduce' and len(args) != 2:
                return None
            return ReduceContract(name[6:], k[1])
        m = re.match(r'^ieme::mixed_number<(.*)>::mixed_number$', name)
        if m:
            ta = split_top(m.group(1))
            if len(ta) != 3:
                return None
            W, T, P = canon_type(ta[0]), canon_type(ta[1]), Policy.parse(ta[2])
            if W not in INTS or T not in INTS or P is None or width(W) < 32 or width(T) < 32:
                return None
            ks = [arg_kind(a) for a in args]
            if ks == [('R', W), ('F', T)] and not targs:
                return MixedContract('parts', P, W, T)
            if len(ks) == 1 and ks[0] and ks[0][0] == 'F' and len(targs) == 1 and width(ks[0][1]) >= 32:
                return MixedContract('frac', P, W, T, ks[0][1])
            return None
        if name == 'ieme::parse_utilities::is_valid_digit_sequence' and len(args) == 2 and is_view(args[0]) and args[1] == 'int':
            return DigitsContract()
        if name == 'ieme::parse_utilities::digit_sequence_to_int' and len(args) == 2 and is_view(args[0]):
            k = arg_kind(args[1])
            return DigitValueContract(k[1]) if k and k[0] == 'R' and width(k[1]) >= 32 else None
        if name == 'ieme::math_utilities::abs' and len(args) == 1:
            k = arg_kind(args[0])
            return AbsContract(k[1]) if k and k[0] == 'R' and width(k[1]) >= 32 else None
        if name[:6] == 'ieme::' and name[6:] in QUERIES and len(args) == 1:
            k = arg_kind(args[0])
            return QueryContract(name[6:], k[1]) if k and k[0] == 'F' and width(k[1]) >= 32 else None
        if name == 'ieme::math_utilities::pow' and len(args) == 2:
            ks = [arg_kind(a) for a in args]
            if None in ks or ks[0] != ks[1] or ks[0][0] != 'R' or width(ks[0][1]) < 32:
                return None
            return PowContract(ks[0][1])
        if name in ('ieme::trunc', 'ieme::ceil', 'ieme::floor', 'ieme::round') and len(args) == 1:
            k = arg_kind(args[0])
            if k is None or k[0] != 'F' or width(k[1]) < 32:
                return None
            return WholeContract(name[6:], k[1])
        return None
