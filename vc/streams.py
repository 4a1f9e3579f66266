"""Ghost model of iostreams: contracts assumed for the libstdc++ stream operations.

Output: a stream is the list of items written to it; << of an integer appends its decimal numeral, << of a character or a string
literal appends those characters.  Input of unknown content: every operation is a deterministic (unknown) function of the state
of the stream, which yields a value, a success flag and the next state; failure is sticky.  Input of content written before
(round trip): extraction of an integer takes the numeral at the front when no digit follows it; ignore(max, c) drops everything
up to and including the first c."""
import re
import z3
from spec import I, tmin, tmax, width, signed

LETTER = {'s': 'short', 't': 'unsigned short', 'i': 'int', 'j': 'unsigned int', 'l': 'long', 'm': 'unsigned long', 'x': 'long long', 'y': 'unsigned long long'}
TR = 'St11char_traitsIcE'
UNLIMITED = 2 ** 63 - 1
TEXT = ('text', 'intext')


class Ghost:
    """immutable. items: what has been written and not read yet; state: of an input of unknown content (None: known content)"""

    def __init__(self, items=(), state=None):
        self.items, self.state = items, state

    def __repr__(self):
        return 'ghost'


class Inputs:
    """per unit: the unknown functions of an input stream, as a table"""

    def __init__(self, u):
        self.u = u
        self.tab = {}
        self.n = 0
        self.okv = {0: u.fresh('stream_ok', 0, 1)}

    def step(self, state, op, T=None):
        """(next state, value, success flag of the next state)"""
        k = (state, op, T)
        if k not in self.tab:
            self.n += 1
            v = self.u.fresh('read', tmin(T), tmax(T)) if T else None
            ok = self.okv[self.n] = self.u.fresh('stream_ok', 0, 1)
            self.u.fact([ok], ok <= self.okv[state])
            self.tab[k] = (self.n, v, ok)
        return self.tab[k]


def inputs(u):
    if not hasattr(u, 'inputs_'):
        u.inputs_ = Inputs(u)
    return u.inputs_


def stream(ex, st, state=None):
    """the one stream of a unit"""
    o = ex.u.stream = ex.alloc(st, None, 'stream', 'stream')
    st.mem[o] = {'ghost': (0, Ghost(state=state))}
    return o


def ghost(st, o):
    return st.mem[o]['ghost'][1]


def call(ex, st, n, args, where):
    from sym import PV, IV, BV, Outside
    u = ex.u
    if n in ('vc_ostream', 'vc_istream'):
        if getattr(u, 'stream', None) is None:
            stream(ex, st)
        return [('ret', st, PV(u.stream, 0))]
    p = args[0] if args else None
    if not isinstance(p, PV) or p.o is None or p.o.kind != 'stream' or p.off != 0:
        return None
    o = p.o
    g = ghost(st, o)
    ret = [('ret', st, p)]
    u.trusted.add('libstdc++ ' + ex.dem.get('@' + n, n).replace('std::basic_ostream<char, std::char_traits<char>>', 'std::ostream').replace(
        'std::basic_ios<char, std::char_traits<char>>', 'std::ios').replace('<std::char_traits<char>>', ''))

    def upd(g2):
        st.mem[o]['ghost'] = (0, g2)

    def write(*items):
        if g.state is not None:
            raise Outside('output to an input stream')
        upd(Ghost(g.items + items))
        return ret
    m = re.fullmatch(r'_ZNSols(E)([a-z])', n)
    if m and m.group(2) in LETTER:
        return write(('dec', I(ex.as_T(args[1], LETTER[m.group(2)]))))
    if n == '_ZStls%sERSt13basic_ostreamIcT_ES5_c' % ('I' + TR) or n == '_ZNSo3putEc':
        return write(('chr', I(ex.s(args[1]))))
    if n == '_ZStls%sERSt13basic_ostreamIcT_ES5_PKc' % ('I' + TR):
        q = args[1]
        if not isinstance(q, PV) or q.o is None or q.o.kind != 'const' or not isinstance(q.off, int):
            raise Outside('output of a character pointer')
        cs, out, i = ex.cells(st, q.o), [], q.off
        while True:
            c = cs.get(i)
            if c is None or c[0] != 1:
                raise Outside('output of a character pointer')
            v = ex.s(c[1])
            if isinstance(v, int) and v == 0:
                return write(*out)
            out.append(('chr', I(v)))
            i += 1
    m = re.fullmatch(r'_ZNSirsER([a-z])', n)
    if m and m.group(1) in LETTER:
        T = LETTER[m.group(1)]
        w = width(T)
        sg = 's' if signed(T) else 'u'
        if g.state is None:
            its = list(g.items)
            while its and its[0][0] == 'chr' and z3.is_int_value(its[0][1]) and its[0][1].as_long() in (32, 9, 10, 11, 12, 13):
                its.pop(0)
            if not its or its[0][0] != 'dec' or (len(its) > 1 and not (its[1][0] == 'chr' and z3.is_int_value(its[1][1]) and not 48 <= its[1][1].as_long() <= 57)):
                raise Outside('extraction from this content')
            v = its[0][1]
            u.oblige('extracted value representable', where, st.H, z3.And(tmin(T) <= v, v <= tmax(T)))
            ex.assume(st, z3.And(tmin(T) <= v, v <= tmax(T)))
            upd(Ghost(tuple(its[1:])))
            ex.store(st, args[1], ('int', w), IV(w, v, sg), where)
            return ret
        s2, v, ok = inputs(u).step(g.state, 'extract', T)
        upd(Ghost(state=s2))
        x = u.fresh('unread', tmin(T), tmax(T))
        r = z3.If(ok == 1, v, x)
        u.keep.append(r)
        ex.store(st, args[1], ('int', w), IV(w, r, sg), where)
        return ret
    if n in ('_ZNSi6ignoreEli', '_ZNSi6ignoreEl', '_ZNSi6ignoreEv'):
        lim = ex.s(args[1]) if len(args) > 1 else 1
        c = ex.s(args[2]) if len(args) > 2 else -1
        if not isinstance(lim, int) or not isinstance(c, int):
            raise Outside('ignore of symbolic arguments')
        if g.state is not None:
            upd(Ghost(state=inputs(u).step(g.state, ('ignore', lim, c))[0]))
            return ret
        its = list(g.items)
        if lim != UNLIMITED or c < 0 or 48 <= c <= 57 or c == 45:
            raise Outside('ignore over this content')
        while its:
            k, v = its.pop(0)
            if k == 'dec':
                continue
            if k != 'chr' or not z3.is_int_value(v):
                raise Outside('ignore over this content')
            if v.as_long() == c:
                upd(Ghost(tuple(its)))
                return ret
        raise Outside('ignore to the end')
    m = re.fullmatch(r'_ZNKSt9basic_iosIc%sE(4fail|cvb|nt|4good)Ev' % TR, n)
    if m:
        if g.state is None:
            ok = z3.BoolVal(True)
        elif m.group(1) == '4good':
            i = inputs(u)
            gd = i.step(g.state, 'good', 'bool')[1]
            u.fact([gd], gd <= i.okv[g.state])
            ok = gd == 1
        else:
            ok = inputs(u).okv[g.state] == 1
        return [('ret', st, BV(z3.Not(ok) if m.group(1) in ('4fail', 'nt') else ok))]
    m = re.fullmatch(r'_ZNSolsEPFRSt8ios_baseS0_E|_ZNSolsEPFRSoS_E|_ZNSolsEPF.*', n)
    if m:
        return write(('manipulator', ex.show_fn(args[1]) if hasattr(ex, 'show_fn') else '?'))
    return None


def flatten(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out += [('chr', z3.IntVal(ord(c))) for c in p]
        else:
            out.append(('dec', I(p)))
    return out


def text_is(items, parts):
    a, b = list(items), flatten(parts)
    if [k for k, _ in a] != [k for k, _ in b]:
        return z3.BoolVal(False)
    return z3.And([x == y for (_, x), (_, y) in zip(a, b)])


# ---------------------------------------------------------------- concrete reading, as num_get in the classic locale does it
def extract(s, T):
    """(value or None, rest)"""
    t = s.lstrip(' \t\n\v\f\r')
    m = re.match(r'[+-]?[0-9]+', t)
    if not m:
        return None, t
    v = int(m.group(0))
    if not signed(T) and m.group(0)[0] == '-' and -v <= tmax(T):
        v %= 2 ** width(T)
    if not tmin(T) <= v <= tmax(T):
        return None, t[m.end():]
    return v, t[m.end():]


def read(s, T):
    """numerator, denominator, rest of the text; None if reading fails"""
    n, s = extract(s, T)
    if n is None:
        return None
    i = s.find('/')
    if i < 0:
        return None
    d, s = extract(s[i + 1:], T)
    return None if d is None else (n, d, s)


def sample(r):
    """random texts near a written fraction"""
    num = lambda: r.choice(('', '', '-', '+')) + str(r.choice((r.randint(0, 9), r.randint(0, 10 ** 6), r.getrandbits(r.randint(1, 63)))))
    ws = lambda: r.choice(('', '', ' ', '  ', '\t', '\n')) * r.choice((1, 1, 1, 2))
    junk = lambda: r.choice(('', '', '', '', ' ', 'x', ' 12', '.5', ' ab', ' ' * 300, 'z' * 1100, '-'))
    return ws() + num() + junk() + r.choice(('/', '/', '/', '/', '//', '', ' / ', '|')) + ws() + num() + r.choice(('', ' ', 'x', ' 7/8', '/3', '.25', ' ,'))
