"""Parser for the textual LLVM 18 IR that clang -O0 emits (opaque pointers).

Everything that is not understood raises IRError: the caller turns that into an
"outside the verifier's reach" obligation, never into silent acceptance."""
import re, struct


class IRError(Exception):
    pass


TOK = re.compile(r'''\s+|
 (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|
 (?P<qname>[%@!]"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*")|
 (?P<name>[%@][-a-zA-Z$._0-9]+)|
 (?P<meta>![-a-zA-Z$._0-9]*)|
 (?P<attr>\#[0-9]+)|
 (?P<fp>0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?)|
 (?P<num>-?[0-9]+)|
 (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)|
 (?P<dots>\.\.\.)|
 (?P<p><\{|\}>|[()\[\]{}<>,=*:|])''', re.X)


def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group()))
    return out


INT = {}


def ity(n):
    t = INT.get(n)
    if t is None:
        t = INT[n] = ('int', n)
    return t


PTR = ('ptr',)
ARGATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'writeonly', 'readonly', 'immarg',
           'returned', 'inreg', 'noreturn', 'nest', 'nofree', 'readnone', 'writable', 'dead_on_unwind', 'swiftself',
           'allocptr', 'byval', 'sret', 'align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'inrange',
           'range', 'noext', 'allocalign', 'preallocated', 'inalloca', 'elementtype'}
LINK = {'dso_local', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'private', 'external', 'common',
        'appending', 'available_externally', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr',
        'thread_local', 'extern_weak', 'dllimport', 'dllexport', 'constant', 'global', 'externally_initialized'}
CCS = {'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
       'afn', 'reassoc'}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def pk(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, s):
        if self.pk() == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.eat(s):
            raise IRError('expected %r at %r' % (s, self.t[max(0, self.i - 3):self.i + 5]))

    def type(self):
        k, v = self.next()
        if v == 'ptr':
            t = PTR
        elif v == 'void':
            t = ('void',)
        elif k == 'word' and re.fullmatch(r'i[0-9]+', v):
            t = ity(int(v[1:]))
        elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128', 'label', 'metadata', 'token'):
            t = (v,)
        elif k in ('name', 'qname') and v[0] == '%':
            t = ('named', v)
        elif v == '{' or v == '<{':
            close = '}' if v == '{' else '}>'
            fs = []
            if not self.eat(close):
                while True:
                    fs.append(self.type())
                    if self.eat(close):
                        break
                    self.exp(',')
            t = ('struct', tuple(fs), v == '<{')
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            et = self.type()
            self.exp(']')
            t = ('array', n, et)
        elif v == '<':
            n = int(self.next()[1])
            self.exp('x')
            et = self.type()
            self.exp('>')
            t = ('vector', n, et)
        else:
            raise IRError('type: %r' % (v,))
        # function type:  ret (args)
        if self.pk() == '(':
            depth = 0
            while True:
                x = self.next()[1]
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            t = ('fn', t)
        return t

    def attrs(self):
        """skip parameter attributes; returns dict of interesting ones"""
        out = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in ARGATTR:
                self.i += 1
                if self.pk() == '(':
                    if v in ('sret', 'byval', 'elementtype', 'preallocated', 'inalloca'):
                        self.exp('(')
                        out[v] = self.type()
                        self.exp(')')
                    else:
                        d = 0
                        while True:
                            x = self.next()[1]
                            d += (x == '(') - (x == ')')
                            if d == 0:
                                break
                elif v == 'align':
                    self.next()
                else:
                    out[v] = True
            elif k == 'attr':
                self.i += 1
            else:
                return out

    def value(self, ty):
        k, v = self.next()
        if k in ('name', 'qname') and v[0] == '%':
            return ('reg', v)
        if k in ('name', 'qname') and v[0] == '@':
            return ('glob', v)
        if k == 'num':
            if ty and ty[0] in ('float', 'double'):
                return ('fp', float(v))
            return ('int', int(v))
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('undef',)
        if k == 'fp':
            if v.startswith('0xK'):
                return ('fp80', v)
            if v.startswith('0x'):
                return ('fp', struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0])
            return ('fp', float(v))
        if k == 'str':
            body = v[2:-1]
            out = bytearray()
            i = 0
            while i < len(body):
                if body[i] == '\\':
                    if body[i + 1] == '\\':
                        out.append(92)
                        i += 2
                    else:
                        out.append(int(body[i + 1:i + 3], 16))
                        i += 3
                else:
                    out.append(ord(body[i]))
                    i += 1
            return ('bytes', bytes(out))
        if v in ('{', '[', '<{'):
            close = {'{': '}', '[': ']', '<{': '}>'}[v]
            xs = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    xs.append((t, self.value(t)))
                    if self.eat(close):
                        break
                    self.exp(',')
            return ('agg', xs)
        if v == 'getelementptr':
            while self.pk() in ('inbounds', 'nuw', 'nusw'):
                self.i += 1
            self.exp('(')
            st = self.type()
            self.exp(',')
            ops = []
            while True:
                self.eat('inrange')
                t = self.type()
                self.eat('inrange')
                ops.append((t, self.value(t)))
                if self.eat(')'):
                    break
                self.exp(',')
            return ('gepc', st, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sub', 'add', 'blockaddress', 'addrspacecast'):
            # constant expressions we do not interpret: parsed, value opaque
            d = 0
            while True:
                x = self.next()[1]
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
            return ('opaque',)
        raise IRError('value: %r' % (v,))

    def tval(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Func:
    __slots__ = ('name', 'ret', 'retattrs', 'params', 'blocks', 'order', 'varargs', 'lines', 'mod', 'parsed', 'linkage')


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self._parse(text)

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k in ('x86_fp80', 'fp128'):
            return 16
        if k == 'struct':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        if k in ('array',):
            return self.align(t[2])
        raise IRError('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k in ('x86_fp80', 'fp128'):
            return 16
        if k == 'struct':
            return self.layout(t)[1]
        if k == 'array':
            return t[1] * self.size(t[2])
        raise IRError('size %r' % (t,))

    def layout(self, t):
        offs, o, al = [], 0, 1
        for f in t[1]:
            a = 1 if t[2] else self.align(f)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(f)
        o = (o + al - 1) // al * al
        return offs, o

    def flatten(self, t, base=0):
        """scalar leaves of a type: [(offset, scalar type)]"""
        r = self.resolve(t)
        if r[0] == 'struct':
            offs, _ = self.layout(r)
            out = []
            for o, f in zip(offs, r[1]):
                out += self.flatten(f, base + o)
            return out
        if r[0] == 'array':
            s = self.size(r[2])
            out = []
            for i in range(r[1]):
                out += self.flatten(r[2], base + i * s)
            return out
        return [(base, r)]

    # ---- parsing
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                name, rest = ln.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    self.types[name] = ('opaque',)
                else:
                    self.types[name] = P(tokenize(rest), self).type()
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                if m:
                    self.decls.add('@' + m.group(1))
            i += 1

    def _global(self, ln):
        toks = tokenize(ln)
        p = P(toks, self)
        name = p.next()[1]
        p.exp('=')
        const = False
        ext = False
        while True:
            k, v = p.peek()
            if k == 'word' and v in LINK:
                if v == 'constant':
                    const = True
                if v in ('external', 'extern_weak'):
                    ext = True
                p.i += 1
                if v == 'thread_local' and p.pk() == '(':
                    p.next(); p.next(); p.exp(')')
            elif v == 'comdat':
                return
            else:
                break
        try:
            ty = p.type()
        except (IRError, IndexError):
            return
        init = None
        if not ext and p.pk() is not None and p.pk() != ',':
            try:
                init = p.value(ty)
            except (IRError, IndexError, ValueError):
                init = ('opaque',)
        self.globals[name] = (ty, const, init)

    def _func(self, head, body):
        f = Func()
        f.mod = self
        p = P(tokenize(head), self)
        p.exp('define')
        f.linkage = set()
        while p.peek()[0] == 'word' and (p.pk() in LINK or p.pk() in CCS):
            f.linkage.add(p.next()[1])
        f.retattrs = p.attrs()
        f.ret = p.type()
        if f.ret[0] == 'fn':
            raise IRError('fn ret')
        f.name = p.next()[1]
        p.exp('(')
        f.params = []
        f.varargs = False
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    f.varargs = True
                    p.exp(')')
                    break
                t = p.type()
                a = p.attrs()
                nm = p.next()[1]
                f.params.append((nm, t, a))
                if p.eat(')'):
                    break
                p.exp(',')
        f.lines = body
        f.parsed = False
        self.funcs[f.name] = f

    def body(self, name):
        f = self.funcs[name]
        if not f.parsed:
            parse_body(f)
            f.parsed = True
        return f


def parse_body(f):
    f.blocks = {}
    f.order = []
    cur = '%' + str(len(f.params)) if all(re.fullmatch(r'%\d+', p[0]) for p in f.params) else '%0'
    # entry label: the first unnamed value after the params, unless a label is given
    ins = []
    f.blocks[cur] = ins
    f.order.append(cur)
    pend = None
    first = True
    for ln in f.lines:
        s = ln.strip()
        if not s or s.startswith(';'):
            continue
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
        if m:
            lab = '%' + m.group(1)
            if first:
                del f.blocks[cur]
                f.order.pop()
            cur = lab
            ins = []
            f.blocks[cur] = ins
            f.order.append(cur)
            first = False
            continue
        first = False
        if pend is not None:
            pend += ' ' + s
            if pend.startswith('switch') or ' switch ' in pend:
                if s.startswith(']'):
                    ins.append(pend)
                    pend = None
            else:
                ins.append(pend)
                pend = None
            continue
        if (s.startswith('switch') and not s.rstrip().split('!')[0].rstrip().endswith(']')):
            pend = s
            continue
        if re.match(r'(%\S+ = )?invoke ', s) and ' unwind ' not in s:
            pend = s
            continue
        if s.startswith(('catch', 'cleanup', 'filter')) and ins and 'landingpad' in ins[-1]:
            ins[-1] += ' ' + s
            continue
        ins.append(s)
    for lab in f.order:
        f.blocks[lab] = [parse_ins(x, f.mod) for x in f.blocks[lab]]


def _args(p):
    args = []
    p.exp('(')
    if not p.eat(')'):
        while True:
            t = p.type()
            a = p.attrs()
            if t[0] == 'metadata':
                d = 0
                while p.pk() not in (',', ')') or d:
                    x = p.next()[1]
                    d += (x in '([{') - (x in ')]}')
                args.append((t, ('undef',), a))
            else:
                args.append((t, p.value(t), a))
            if p.eat(')'):
                break
            p.exp(',')
    return args


def parse_ins(s, mod):
    toks = tokenize(s)
    p = P(toks, mod)
    res = None
    if len(toks) > 2 and toks[1][1] == '=' and toks[0][0] in ('name', 'qname'):
        res = p.next()[1]
        p.exp('=')
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op == 'alloca':
        t = p.type()
        cnt = None
        if p.eat(','):
            if p.pk() not in ('align', 'addrspace'):
                cnt = p.tval()
        return ('alloca', res, t, cnt)
    if op == 'load':
        while p.pk() in ('volatile', 'atomic'):
            raise IRError('volatile/atomic')
        t = p.type()
        p.exp(',')
        _, v = p.tval()
        return ('load', res, t, v)
    if op == 'store':
        if p.pk() in ('volatile', 'atomic'):
            raise IRError('volatile/atomic')
        t, v = p.tval()
        p.exp(',')
        _, a = p.tval()
        return ('store', None, t, v, a)
    if op == 'getelementptr':
        while p.pk() in ('inbounds', 'nuw', 'nusw'):
            p.i += 1
        st = p.type()
        ops = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            ops.append(p.tval())
        return ('gep', res, st, ops[0][1], ops[1:])
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
        fl = set()
        while p.pk() in ('nsw', 'nuw', 'exact', 'disjoint'):
            fl.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return ('bin', res, op, t, a, b, fl)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        while p.pk() in CCS:
            p.i += 1
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return ('fbin', res, op, t, a, b)
    if op == 'fneg':
        while p.pk() in CCS:
            p.i += 1
        t = p.type()
        return ('fneg', res, t, p.value(t))
    if op == 'icmp':
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        return ('icmp', res, pred, t, a, p.value(t))
    if op == 'fcmp':
        while p.pk() in CCS:
            p.i += 1
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        return ('fcmp', res, pred, t, a, p.value(t))
    if op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
              'fpext', 'fptrunc'):
        while p.pk() in ('nneg', 'nuw', 'nsw'):
            p.i += 1
        t = p.type()
        v = p.value(t)
        p.exp('to')
        return ('cast', res, op, t, v, p.type())
    if op == 'select':
        while p.pk() in CCS:
            p.i += 1
        _, c = p.tval()
        p.exp(',')
        t, a = p.tval()
        p.exp(',')
        _, b = p.tval()
        return ('select', res, t, c, a, b)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            lab = p.next()[1]
            p.exp(']')
            inc.append((v, lab))
            if not p.eat(','):
                break
        return ('phi', res, t, inc)
    if op == 'extractvalue':
        t, v = p.tval()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return ('extractvalue', res, t, v, idx)
    if op == 'insertvalue':
        t, v = p.tval()
        p.exp(',')
        t2, v2 = p.tval()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return ('insertvalue', res, t, v, t2, v2, idx)
    if op == 'br':
        if p.eat('label'):
            return ('br', None, p.next()[1])
        t = p.type()
        c = p.value(t)
        p.exp(',')
        p.exp('label')
        a = p.next()[1]
        p.exp(',')
        p.exp('label')
        return ('condbr', None, c, a, p.next()[1])
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        p.exp('label')
        d = p.next()[1]
        p.exp('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.exp(',')
            p.exp('label')
            cases.append((cv[1], p.next()[1]))
        return ('switch', None, t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t[0] == 'void':
            return ('ret', None, None, None)
        return ('ret', None, t, p.value(t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'landingpad':
        return ('landingpad', res, None)
    if op == 'resume':
        return ('resume', None)
    if op == 'freeze':
        t, v = p.tval()
        return ('freeze', res, t, v)
    if op in ('call', 'invoke'):
        while p.pk() in CCS or p.pk() in LINK:
            p.i += 1
        ra = p.attrs()
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        k, callee = p.next()
        args = _args(p)
        nxt = None
        if op == 'invoke':
            while p.pk() != 'to':
                p.i += 1
            p.exp('to')
            p.exp('label')
            nxt = p.next()[1]
        return ('call', res, rt, callee, args, nxt)
    raise IRError('instruction: ' + s[:80])
