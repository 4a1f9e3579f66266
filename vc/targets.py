"""The public entry points put under contract for each property: wrapper text compiled against /repo's headers plus the
contract over the wrapper's scalars."""
import strs
import softfp
from contracts import *
from engine import Target, KINDS, flat

QT = ('int', 'long')                       # integer representations of the quick tier
TT = ('int', 'long', 'unsigned int', 'unsigned long')
SHORT = {'int': 'i', 'long': 'l', 'unsigned int': 'ui', 'unsigned long': 'ul', 'long long': 'll', 'short': 's',
         'unsigned long long': 'ull', 'float': 'f', 'double': 'd'}
POLICIES = list(ALIASES)
KS = (('F', 'F'), ('F', 'R'), ('R', 'F'))


EXTRA = {'o_ignore': Policy('safe', (('o', 1),)), 'fast_o_ignore': Policy('fast', (('o', 1),)),
         'i_normalize': Policy('safe', (('i', 0),)), 'defaults': ALIASES['safe_reduced_io']}


def policy(pol):
    return ALIASES.get(pol) or EXTRA[pol]


def fr(T, pol):
    if pol == 'default':
        return 'ieme::fraction<%s>' % T
    return 'ieme::fraction<%s, %s>' % (T, EXTRA[pol].cpp() if pol in EXTRA and pol != 'defaults' else 'ieme::ops::' + pol)


def put(e, name='res'):
    return '  auto const r = %s; *o_%s_n = r.numerator(); *o_%s_d = r.denominator();' % (e, name, name)


def only(p, clauses, extra=()):
    """keep the clauses that carry property p"""
    return [(l, (p,), th) for l, ps, th in clauses if p in ps or set(ps) & set(extra)]


def optarget(p, pol, op, kinds, T, extra_req=None, relabel=None, tag=''):
    P = policy(pol)
    ct = OpContract(P, op, kinds, T)
    ps = [('ab'[i], k, T) for i, k in enumerate(kinds)]
    f = fr(T, pol)
    e = [('%s(%s_n, %s_d)' % (f, n, n)) if k == 'F' else n for n, k, t in ps]
    expr = '-' + e[0] if op == 'negate' else '%s %s %s' % (e[0], SYMBOL[op], e[1])
    name = 't_%s_%s_%s_%s%s' % (pol, op, ''.join(kinds), SHORT[T], tag)
    title = '%s under ops::%s over %s' % ({'F': 'fraction', 'R': 'integer'}[kinds[0]] + (
        '' if len(kinds) == 1 else ' %s %s' % (SYMBOL[op], {'F': 'fraction', 'R': 'integer'}[kinds[1]])) if op != 'negate'
        else '-fraction', pol, T)
    if tag:
        title += ' [' + tag.strip('_') + ']'

    def req(S, *a):
        return ct.requires(S, *a) + (extra_req(S, op, *a) if extra_req else [])

    def ens(S, *a):
        cl = ct.ensures(S, *a)
        if relabel is not None:
            return [(l, (p,), th) for l, q, th in cl if relabel(l, q)]
        return only(p, cl)
    if op in CMP:
        return Target(name, title, '  *o_res = %s;' % expr, ps, ('B', None), req, ens, (p,))
    return Target(name, title, put(expr), ps, ('F', T), req, ens, (p,))


def ops_targets(p, names, T_list, pols=POLICIES, kinds=KS, **kw):
    out = []
    for T in T_list:
        for pol in pols:
            for op in names:
                if op == 'negate':
                    if signed(T):
                        out.append(optarget(p, pol, op, ('F',), T, **kw))
                    continue
                for ks in kinds:
                    out.append(optarget(p, pol, op, ks, T, **kw))
    return out


def types(tier):
    return TT if tier == 'thorough' else QT


def t_c01(tier):
    return ops_targets('C01', ('plus', 'minus'), types(tier))


def t_c02(tier):
    return ops_targets('C02', ('multiplies', 'divides', 'negate'), types(tier))


def t_c03(tier):
    return ops_targets('C03', ('modulus',), types(tier))


def t_c04(tier):
    return ops_targets('C04', CMP, types(tier) if tier == 'thorough' else QT)


def t_c05(tier):
    out = []
    for T in types(tier):
        for name, mode in (('reduce', None), ('reduce', 0), ('reduce', 1), ('reduce_normalize_signs', None),
                           ('reduce_ignore_signs', None)):
            for raw in (0, 1):
                arg = 'ieme::raw_fraction<%s>(f_n, f_d)' % T if raw else '%s(f_n, f_d)' % fr(T, 'safe')
                m = '' if mode is None else ', ieme::reduce_mode::%s' % ('normalize_signs', 'ignore_signs')[mode]
                e = 'ieme::%s(%s%s)' % (name, arg, m)
                ign = name == 'reduce_ignore_signs' or mode == 1
                body = put(e) if not raw else \
                    '  auto const r = %s; *o_res_n = r.numerator; *o_res_d = r.denominator;' % e

                def ens(S, f, res, ign=ign):
                    out = [('value preserved', ('C05',), lambda: S.Implies(f.d != 0, S.And(res.d != 0, S.val(res) == S.val(f)))),
                           ('undefined reduces to 0/0', ('C05',), lambda: S.Implies(f.d == 0, S.And(res.n == 0, res.d == 0))),
                           ('lowest terms', ('C05',), lambda: S.Implies(f.d != 0, S.coprime(res.n, res.d)))]
                    if ign:
                        out.append(('signs of both components kept', ('C05',), lambda: S.Implies(f.d != 0, S.And(
                            S.Iff(res.n > 0, f.n > 0), S.Iff(res.n < 0, f.n < 0), S.Iff(res.d > 0, f.d > 0)))))
                    else:
                        out.append(('denominator positive', ('C05',), lambda: S.Implies(f.d != 0, res.d > 0)))
                    return out
                out.append(Target('t_%s%s_%s_%s' % (name, '' if mode is None else str(mode), 'raw' if raw else 'fr', SHORT[T]),
                                  '%s%s of a %sfraction over %s' % (name, m, 'raw ' if raw else '', T), body, [('f', 'F', T)],
                                  ('F', T), lambda S, f, T=T: pre_components(S, T, f), ens, ('C05',)))
        # idempotence and uniqueness of the canonical form
        f2 = 'ieme::reduce(ieme::raw_fraction<%s>(%s_n, %s_d))'

        def ens2(S, f, g, res):
            S.hint('canon', f, g)
            return [('equal values reduce to identical components', ('C05',),
                     lambda: S.Implies(S.val(f) == S.val(g), S.And(res[0] == res[2], res[1] == res[3])))]
        out.append(Target('t_canon_' + SHORT[T], 'reduce of two equal fractions over ' + T,
                          '  auto const x = %s, y = %s;\n  *o_res_xn = x.numerator; *o_res_xd = x.denominator; *o_res_yn = y.numerator; '
                          '*o_res_yd = y.denominator;' % (f2 % (T, 'f', 'f'), f2 % (T, 'g', 'g')), [('f', 'F', T), ('g', 'F', T)],
                          ('L', [(n, T) for n in ('xn', 'xd', 'yn', 'yd')]), lambda S, f, g, T=T: pre_components(S, T, f, g), ens2, ('C05',)))
        for ign in (0, 1):
            nm = ('normalize_signs', 'ignore_signs')[ign]

            def ens3(S, f, res):
                return [('reducing twice changes nothing', ('C05',), lambda: S.And(res[0] == res[2], res[1] == res[3]))]
            out.append(Target('t_idem%d_%s' % (ign, SHORT[T]), 'reduce (%s) applied twice over %s' % (nm, T),
                              '  auto const x = ieme::reduce(ieme::raw_fraction<%s>(f_n, f_d), ieme::reduce_mode::%s); auto const y = '
                              'ieme::reduce(x, ieme::reduce_mode::%s);\n  *o_res_xn = x.numerator; *o_res_xd = x.denominator; '
                              '*o_res_yn = y.numerator; *o_res_yd = y.denominator;' % (T, nm, nm), [('f', 'F', T)],
                              ('L', [(n, T) for n in ('xn', 'xd', 'yn', 'yd')]), lambda S, f, T=T: pre_components(S, T, f), ens3,
                              ('C05',)))
    return out


def t_c06(tier):
    # the two sign modes of reduced_output, and the default policy by name
    pols = [p for p in POLICIES if ALIASES[p].canon() is not None]
    return ops_targets('C06', ARITH + ('negate',), types(tier), pols) + \
        ops_targets('C06', ARITH + ('negate',), types(tier), ['o_ignore', 'fast_o_ignore', 'defaults'])


def t_c07(tier):
    undef = lambda S, op, l, r=None: [('an operand is undefined or the divisor zero', lambda: S.Not(is_def(S, op, l, r)))]
    undefc = lambda S, op, l, r: [('an operand is undefined', lambda: S.Not(S.And(*[x.d != 0 for x in (l, r) if isinstance(x, F)])))]
    undefn = lambda S, op, l: [('the operand is undefined', lambda: l.d == 0)]
    T = types(tier)
    return ops_targets('C07', ARITH, T, extra_req=undef, tag='_undef') + \
        ops_targets('C07', ('negate',), T, extra_req=undefn, tag='_undef') + \
        ops_targets('C07', CMP, T, extra_req=undefc, tag='_undef')


def t_c26(tier):
    T = types(tier)
    safe = [p for p in POLICIES if p.startswith('safe') and not ALIASES[p].reduces_input()]
    inp = [p for p in POLICIES if ALIASES[p].reduces_input()]
    out = ops_targets('C26', ('plus', 'minus', 'modulus') + CMP, T, safe, relabel=lambda l, q: False)
    out += ops_targets('C26', ARITH + CMP + ('negate',), T, inp, relabel=lambda l, q: bool(set(q) & {'C01', 'C02', 'C03', 'C04'}))
    return out



WHOLE = ('trunc', 'ceil', 'floor', 'round')


def t_c08(tier):
    out = []
    for T in types(tier):
        for pol in (('safe_reduced_io', 'fast') if tier == 'quick' else POLICIES):
            x = '%s(f_n, f_d)' % fr(T, pol)
            for name in WHOLE:
                forms = [('', 'ieme::%s(%s)' % (name, x)), ('_mode', 'ieme::to_whole(%s, ieme::round_mode::%s)' % (x, name))]
                if name == 'round':
                    forms.append(('_def', 'ieme::to_whole(%s)' % x))
                for tag, e in forms:
                    out.append(Target('t_%s%s_%s_%s' % (name, tag, pol, SHORT[T]), '%s%s under ops::%s over %s' % (
                        name, {'': '', '_mode': ' via to_whole', '_def': ' via to_whole without a mode'}[tag], pol, T),
                        '  *o_res = %s;' % e, [('f', 'F', T)], ('R', T), lambda S, f, T=T, name=name: pre_whole(S, name, T, f),
                        lambda S, f, res, name=name: post_whole(S, name, f, res), ('C08',)))
    return out


def t_c09(tier):
    out = []
    for T in types(tier):
        for pol in (('safe_reduced_io', 'safe', 'fast', 'fast_reduced_i') if tier == 'quick' else POLICIES):
            P = policy(pol)
            x = '%s(f_n, f_d), k' % fr(T, pol)
            for name in WHOLE:
                forms = [('', 'ieme::%s_redenominate(%s)' % (name, x)), ('_mode', 'ieme::redenominate(%s, ieme::round_mode::%s)' % (x, name))]
                if name == 'round':
                    forms.append(('_def', 'ieme::redenominate(%s)' % x))

                def req(S, f, k, T=T, P=P, name=name):
                    return pre_components(S, T, f, k) + [('defined', lambda: f.d != 0), ('requested denominator is not zero', lambda: k != 0)] + \
                        pre_fit(S, P, 'multiplies', T, f, k)

                def ens(S, f, k, res, name=name):
                    V, N = S.val, S.num
                    # v*k against the whole number res.n; for a negative k the order of the multiples is reversed
                    vk = lambda: V(f) * N(k)
                    w = lambda: N(res.n)
                    up = lambda: S.And(vk() <= w(), w() - N(1) < vk())
                    dn = lambda: S.And(w() <= vk(), vk() < w() + N(1))
                    h = Fraction(1, 2)
                    c = dict(trunc=lambda: S.And(S.Implies(vk() >= N(0), dn()), S.Implies(vk() <= N(0), up())),
                             ceil=lambda: S.And(S.Implies(k > 0, up()), S.Implies(k < 0, dn())),
                             floor=lambda: S.And(S.Implies(k > 0, dn()), S.Implies(k < 0, up())),
                             round=lambda: S.And(w() - N(h) <= vk(), vk() <= w() + N(h)))[name]
                    t = dict(trunc='nearest multiple toward zero', ceil='least multiple not below the value',
                             floor='greatest multiple not above the value', round='within half a step of the value')[name]
                    return [('denominator is the requested one', ('C09',), lambda: res.d == k), (t, ('C09',), c)]
                for tag, e in forms:
                    out.append(Target('t_re%s%s_%s_%s' % (name, tag, pol, SHORT[T]), '%s_redenominate%s under ops::%s over %s' % (
                        name, {'': '', '_mode': ' via redenominate', '_def': ' via redenominate without a mode'}[tag], pol, T), put(e),
                        [('f', 'F', T), ('k', 'R', T)], ('F', T), req, ens, ('C09',)))
    return out


def t_c10(tier):
    out = []
    P = ('C10',)
    for T in TT:
        for pol in ('safe_reduced_io', 'fast') if tier == 'quick' else POLICIES:
            for two in (0, 1):
                params = [('e', 'R', 'int')] if two else [('b', 'R', T), ('e', 'R', 'int')]

                def split(a, two=two):
                    return (2, a[0]) if two else (a[0], a[1])

                def req(S, *a, T=T, split=split):
                    b, e = split(a)
                    r = [('magnitude of the exponent representable', lambda: S.And(e > tmin('int'), S.fits(T, S.abs(e)))),
                         ('power of the base representable', lambda: S.And(S.Implies(e >= 0, S.infull(T, S.pow(b, e))),
                                                                           S.Implies(e < 0, S.infull(T, S.pow(b, -e)))))]
                    return r

                def ens(S, *a, split=split):
                    res = a[-1]
                    b, e = split(a[:-1])
                    V, N = S.val, S.num
                    return [('defined unless zero is raised to a negative exponent', P, lambda: S.Iff(res.d != 0, S.Not(S.And(e < 0, b == 0)))),
                            ('exact power', P, lambda: S.Implies(e >= 0, V(res) == N(S.pow(b, e)))),
                            ('exact reciprocal power', P, lambda: S.Implies(e < 0, V(res) * N(S.pow(b, -e)) == N(1)))]
                fn = 'pow2' if two else 'pow'
                call = 'ieme::%s<%s, %s>(%se)' % (fn, T, 'ieme::ops::' + pol, '' if two else 'b, ')
                out.append(Target('t_%s_%s_%s' % (fn, pol, SHORT[T]), '%s under ops::%s over %s' % (fn, pol, T), put(call), params, ('F', T), req, ens, P))
    return out


def mx(W, T, pol):
    return 'ieme::mixed_number<%s, %s, %s>' % (W, T, EXTRA[pol].cpp() if pol in EXTRA else 'ieme::ops::' + pol)


def putm(e, name='res'):
    return '  auto const r = %s; *o_%s_w = r.whole(); *o_%s_n = r.fractional().numerator(); *o_%s_d = r.fractional().denominator();' % (e, name, name, name)


MIXPAIRS = [('int', 'int'), ('long', 'long'), ('long', 'int'), ('int', 'long')]


def t_c11(tier):
    out = []
    P = 'C11'
    for W, T in MIXPAIRS:
        for pol in ('safe_reduced_io', 'safe', 'fast', 'fast_reduced_i') if tier == 'quick' else POLICIES + ['i_normalize', 'o_ignore']:
            tg = '%s_%s_%s' % (pol, SHORT[W], SHORT[T])
            tt = ' (whole %s, fraction %s, ops::%s)' % (W, T, pol)
            m = mx(W, T, pol)

            def req(S, w, f, W=W, T=T):
                return pre_mixed_parts(S, W, T, w, f)

            def ens(S, w, f, r):
                return [('value kept', (P,), lambda: S.num(r.w) + S.val(r.f) == S.num(w) + S.val(f))] + post_mixed(S, P, r)
            out.append(Target('t_mixed_parts_' + tg, 'mixed number from whole and fractional part' + tt, putm('%s(w, %s(f_n, f_d))' % (m, fr(T, pol))),
                              [('w', 'R', W), ('f', 'F', T)], ('M', (W, T)), req, ens, (P,)))
            out.append(Target('t_mixed_whole_' + tg, 'mixed number from a whole number' + tt, putm('%s(w)' % m),
                              [('w', 'R', W)], ('M', (W, T)), lambda S, w: [],
                              lambda S, w, r: [('value kept', (P,), lambda: S.num(r.w) + S.val(r.f) == S.num(w))] + post_mixed(S, P, r), (P,)))
            out.append(Target('t_mixed_default_' + tg, 'default mixed number' + tt, putm('%s()' % m), [], ('M', (W, T)), lambda S: [],
                              lambda S, r: [('value zero', (P,), lambda: S.num(r.w) + S.val(r.f) == S.num(0))] + post_mixed(S, P, r), (P,)))
            for O, opol in ((T, pol), ('long', pol), ('int', pol), (T, 'fast' if pol != 'fast' else 'safe_reduced_io')):
                nm = 't_mixed_frac_%s_%s_%s' % (tg, SHORT[O], opol if opol != pol else '')
                if any(x.name == nm for x in out):
                    continue

                def req2(S, f, W=W, T=T, O=O):
                    return pre_mixed_frac(S, W, T, O, f)

                def ens2(S, f, r):
                    return [('value kept', (P,), lambda: S.num(r.w) + S.val(r.f) == S.val(f))] + post_mixed(S, P, r)
                out.append(Target(nm, 'mixed number from a fraction over %s under ops::%s' % (O, opol) + tt, putm('%s(%s(f_n, f_d))' % (m, fr(O, opol))),
                                  [('f', 'F', O)], ('M', (W, T)), req2, ens2, (P,)))
    return out


def t_c12(tier):
    out = []
    P = 'C12'
    V = lambda S, m: S.num(m.w) + S.val(m.f)

    def can(S, W, T, *ms):
        r = []
        for m in ms:
            r += pre_components(S, T, m.f) + [('defined operand', lambda m=m: m.f.d != 0), ('canonical operand', lambda m=m: canonical_mixed(S, m))]
        return r

    def carry(S, W, w, v):
        # the whole part of the canonical sum is representable
        return [('whole part of the sum representable', lambda: S.And(S.infull(W, w()), S.Implies(v() >= S.num(1), S.infull(W, w() + 1)),
                                                                      S.Implies(v() <= S.num(-1), S.infull(W, w() - 1))))]
    for W, T in MIXPAIRS:
        for pol in ('safe_reduced_io', 'safe', 'fast', 'fast_reduced_i') if tier == 'quick' else POLICIES + ['i_normalize', 'o_ignore']:
            pl = policy(pol)
            tg = '%s_%s_%s' % (pol, SHORT[W], SHORT[T])
            tt = ' (whole %s, fraction %s, ops::%s)' % (W, T, pol)
            m = mx(W, T, pol)
            mk = lambda n, m=m, T=T, pol=pol: '%s(%s_w, %s(%s_n, %s_d))' % (m, n, fr(T, pol), n, n)
            A, B2 = ('a', 'M', (W, T)), ('b', 'M', (W, T))
            C = W if width(W) >= width(T) else T

            def add(nm, title, body, params, res, req, ens, inline=True):
                out.append(Target('t_%s_%s' % (nm, tg), title + tt, body, params, res, req, ens, (P,), extra=dict(flinks=True)))
            add('mm', 'mixed + mixed', putm('%s + %s' % (mk('a'), mk('b'))), [A, B2], ('M', (W, T)),
                lambda S, a, b, W=W, T=T, pl=pl: can(S, W, T, a, b) + pre_fit(S, pl, 'plus', T, a.f, b.f) + carry(
                    S, W, lambda: a.w + b.w, lambda: S.val(a.f) + S.val(b.f)),
                lambda S, a, b, r: [('value of the sum', (P,), lambda: V(S, r) == V(S, a) + V(S, b))] + post_mixed(S, P, r))
            add('pos', '+mixed', putm('+%s' % mk('a')), [A], ('M', (W, T)), lambda S, a, W=W, T=T: can(S, W, T, a),
                lambda S, a, r: [('value kept', (P,), lambda: V(S, r) == V(S, a))] + post_mixed(S, P, r))
            add('neg', '-mixed', putm('-%s' % mk('a')), [A], ('M', (W, T)), lambda S, a, W=W, T=T: can(S, W, T, a) + [
                ('magnitude of the whole part representable', lambda: S.fits(W, a.w))],
                lambda S, a, r: [('value negated', (P,), lambda: V(S, r) == -V(S, a))] + post_mixed(S, P, r))
            for k, e in enumerate(('%s + x', 'x + %s')):
                add('mi%d' % k, ('mixed + integer', 'integer + mixed')[k], putm(e % mk('a')), [A, ('x', 'R', W)], ('M', (W, T)),
                    lambda S, a, x, W=W, T=T: can(S, W, T, a) + [('sum of the whole parts representable', lambda: S.infull(W, a.w + x))],
                    lambda S, a, x, r: [('value of the sum', (P,), lambda: V(S, r) == V(S, a) + S.num(x))] + post_mixed(S, P, r))
                fx = '%s(f_n, f_d)' % fr(T, pol)
                ex = ('%s + %s' % (mk('a'), fx), '%s + %s' % (fx, mk('a')))[k]

                def reqf(S, a, f, W=W, T=T, pl=pl, C=C):
                    t = S.tdiv(f.n, f.d) if not getattr(S, 'conc', False) or f.d else 0
                    rem = frac_rem(S, pl, f, t)
                    return can(S, W, T, a) + pre_components(S, T, f) + [('defined', lambda: f.d != 0)] + \
                        ([('whole part representable', lambda: S.Not(S.And(f.n == tmin(T), f.d == -1)))] if 0 else []) + \
                        pre_fit(S, pl, 'plus', T, a.f, rem) + carry(S, C, lambda: a.w + t, lambda: S.val(a.f) + S.val(F(S.trem(f.n, f.d), f.d)))
                add('mf%d' % k, ('mixed + fraction', 'fraction + mixed')[k], putm(ex), [A, ('f', 'F', T)], ('M', (C, T)), reqf,
                    lambda S, a, f, r: [('value of the sum', (P,), lambda: V(S, r) == V(S, a) + S.val(f))] + post_mixed(S, P, r))
            for k, e in enumerate(('%s.as_fraction()' % mk('a'), '([](%s x){ return x; })(%s)' % (fr(C, pol), mk('a')))):
                add('as%d' % k, ('as_fraction', 'implicit conversion to a fraction')[k], put(e), [A], ('F', C),
                    lambda S, a, W=W, T=T, C=C, pl=pl: can(S, W, T, a) + pre_fit(S, pl, 'plus', C, a.w, a.f),
                    lambda S, a, r: [('defined', (P,), lambda: r.d != 0), ('value kept', (P,), lambda: S.val(r) == V(S, a))])
            if W == T:
                add('round', 'fraction to mixed number and back', put('%s(%s(f_n, f_d)).as_fraction()' % (m, fr(T, pol))), [('f', 'F', T)], ('F', T),
                    lambda S, f, T=T: pre_components(S, T, f) + [('defined', lambda: f.d != 0)],
                    lambda S, f, r: [('defined', (P,), lambda: r.d != 0), ('value kept', (P,), lambda: S.val(r) == S.val(f))])
    # operands of different types: the result has the common types
    wide = lambda x, y: x if width(x) >= width(y) else y
    for pol in ('safe_reduced_io',) if tier == 'quick' else ('safe_reduced_io', 'safe', 'fast', 'fast_reduced_i'):
        pl = policy(pol)
        for W1, T1, W2, T2 in (('int', 'int', 'long', 'int'), ('int', 'int', 'int', 'long'), ('long', 'int', 'int', 'long'), ('long', 'long', 'int', 'int')):
            CW, CT = wide(W1, W2), wide(T1, T2)
            tg = '%s_%s%s_%s%s' % (pol, SHORT[W1], SHORT[T1], SHORT[W2], SHORT[T2])
            tt = ' (whole %s, fraction %s, and whole %s, fraction %s, ops::%s)' % (W1, T1, W2, T2, pol)
            mk = lambda n, W, T, pol=pol: '%s(%s_w, %s(%s_n, %s_d))' % (mx(W, T, pol), n, fr(T, pol), n, n)
            same = lambda e, W, T, pol=pol: '  static_assert(std::is_same_v<decltype(%s), %s>);\n' % (e, mx(W, T, pol)) + putm(e)
            A, B2 = ('a', 'M', (W1, T1)), ('b', 'M', (W2, T2))
            e = '%s + %s' % (mk('a', W1, T1), mk('b', W2, T2))
            out.append(Target('t_xmm_' + tg, 'mixed + mixed' + tt, same(e, CW, CT), [A, B2], ('M', (CW, CT)),
                              lambda S, a, b, W1=W1, T1=T1, W2=W2, T2=T2, CW=CW, CT=CT, pl=pl: can(S, W1, T1, a) + can(S, W2, T2, b) + pre_fit(
                                  S, pl, 'plus', CT, a.f, b.f) + carry(S, CW, lambda: a.w + b.w, lambda: S.val(a.f) + S.val(b.f)),
                              lambda S, a, b, r: [('value of the sum', (P,), lambda: V(S, r) == V(S, a) + V(S, b))] + post_mixed(S, P, r), (P,),
                              extra=dict(flinks=True)))
        for W, T, X in (('int', 'int', 'long'), ('long', 'int', 'int'), ('long', 'long', 'int'), ('int', 'long', 'long')):
            C = wide(W, X)
            tg = '%s_%s%s_%s' % (pol, SHORT[W], SHORT[T], SHORT[X])
            tt = ' (whole %s, fraction %s, operand %s, ops::%s)' % (W, T, X, pol)
            for k, e in enumerate(('%s + x', 'x + %s')):
                e = e % mk('a', W, T)
                out.append(Target('t_xmi%d_%s' % (k, tg), ('mixed + integer', 'integer + mixed')[k] + tt, same(e, C, T), [('a', 'M', (W, T)), ('x', 'R', X)],
                                  ('M', (C, T)), lambda S, a, x, W=W, T=T, C=C: can(S, W, T, a) + [
                                      ('sum of the whole parts representable', lambda: S.infull(C, a.w + x))] + carry(S, C, lambda: a.w + x, lambda: S.val(a.f)),
                                  lambda S, a, x, r: [('value of the sum', (P,), lambda: V(S, r) == V(S, a) + S.num(x))] + post_mixed(S, P, r), (P,),
                                  extra=dict(flinks=True)))
        for W, T, X in (('int', 'int', 'long'), ('long', 'long', 'int'), ('long', 'int', 'int')):
            CW, CT = wide(W, X), wide(T, X)
            tg = '%s_%s%s_%s' % (pol, SHORT[W], SHORT[T], SHORT[X])
            tt = ' (whole %s, fraction %s, operand over %s, ops::%s)' % (W, T, X, pol)
            fx = '%s(f_n, f_d)' % fr(X, pol)
            for k, e in enumerate(('%s + %s' % (mk('a', W, T), fx), '%s + %s' % (fx, mk('a', W, T)))):
                def reqx(S, a, f, W=W, T=T, X=X, CW=CW, CT=CT, pl=pl):
                    t = S.tdiv(f.n, f.d) if not getattr(S, 'conc', False) or f.d else 0
                    rem = frac_rem(S, pl, f, t)
                    return can(S, W, T, a) + pre_components(S, X, f) + [('defined', lambda: f.d != 0)] + pre_fit(S, pl, 'plus', CT, a.f, rem) + \
                        carry(S, CW, lambda: a.w + t, lambda: S.val(a.f) + S.val(F(S.trem(f.n, f.d), f.d)))
                out.append(Target('t_xmf%d_%s' % (k, tg), ('mixed + fraction', 'fraction + mixed')[k] + tt, same(e, CW, CT), [('a', 'M', (W, T)), ('f', 'F', X)],
                                  ('M', (CW, CT)), reqx, lambda S, a, f, r: [('value of the sum', (P,), lambda: V(S, r) == V(S, a) + S.val(f))] +
                                  post_mixed(S, P, r), (P,), extra=dict(flinks=True)))
    return out


def t_c13(tier):
    out = []
    full = lambda S, T, f: []
    sym = lambda S, T, f: pre_components(S, T, f)
    V = lambda S, f: S.val(f)

    def sign(rel):
        def c(S, f, res):
            return [('agrees with the sign of the value', ('C13',), lambda: S.Iff(res, rel(S.val(f), S.num(0)))),
                    ('false for an undefined fraction', ('C13',), lambda: S.Implies(f.d == 0, S.Not(res)))]
        return c
    L = 'agrees with the components'
    Q = dict(
        is_defined=(full, lambda S, f, res: [(L, ('C13',), lambda: S.Iff(res, f.d != 0))]),
        is_undefined=(full, lambda S, f, res: [(L, ('C13',), lambda: S.Iff(res, f.d == 0))]),
        is_positive=(full, sign(lambda a, b: a > b)),
        is_non_negative=(full, sign(lambda a, b: a >= b)),
        is_zero=(full, sign(lambda a, b: a == b)),
        is_non_positive=(full, sign(lambda a, b: a <= b)),
        is_negative=(full, sign(lambda a, b: a < b)),
        is_integer=(sym, lambda S, f, res: [
            ('true exactly when the denominator divides the numerator', ('C13',), lambda: S.Implies(f.d != 0, S.Iff(res, S.trem(f.n, f.d) == 0))),
            ('false for an undefined fraction', ('C13',), lambda: S.Implies(f.d == 0, S.Not(res)))]),
        is_unit_fraction=(sym, lambda S, f, res: [
            ('true exactly when the numerator divides the denominator', ('C13',),
             lambda: S.Implies(S.And(f.d != 0, f.n != 0), S.Iff(res, S.trem(f.d, f.n) == 0))),
            ('false for zero and undefined fractions', ('C13',), lambda: S.Implies(S.Or(f.d == 0, f.n == 0), S.Not(res)))]),
        is_reduced_ignore_signs=(sym, lambda S, f, res: [
            ('true exactly for lowest terms', ('C13',), lambda: S.Implies(f.d != 0, S.Iff(res, S.coprime(f.n, f.d)))),
            ('false for an undefined fraction', ('C13',), lambda: S.Implies(f.d == 0, S.Not(res)))]),
        is_reduced=(sym, lambda S, f, res: [
            ('true exactly for lowest terms with a positive denominator', ('C13',),
             lambda: S.Implies(f.d != 0, S.Iff(res, S.And(f.d > 0, S.coprime(f.n, f.d))))),
            ('false for an undefined fraction', ('C13',), lambda: S.Implies(f.d == 0, S.Not(res)))]),
        is_proper=(sym, lambda S, f, res: [
            ('magnitude below one', ('C13',), lambda: S.Iff(res, S.And(S.val(f) < S.num(1), S.num(-1) < S.val(f)))),
            ('false for an undefined fraction', ('C13',), lambda: S.Implies(f.d == 0, S.Not(res)))]),
        is_improper=(sym, lambda S, f, res: [
            ('magnitude not below one', ('C13',), lambda: S.Iff(S.Not(res), S.And(S.val(f) < S.num(1), S.num(-1) < S.val(f))))]),
    )
    for T in types(tier):
        for name, (req, ens) in Q.items():
            for pol in ('raw', 'safe_reduced_io', 'fast') if tier == 'quick' else ['raw'] + POLICIES:
                x = 'ieme::raw_fraction<%s>(f_n, f_d)' % T if pol == 'raw' else '%s(f_n, f_d)' % fr(T, pol)
                out.append(Target('t_%s_%s_%s' % (name, pol, SHORT[T]), '%s of a %s over %s' % (
                    name, 'raw fraction' if pol == 'raw' else 'fraction under ops::' + pol, T), '  *o_res = ieme::%s(%s);' % (name, x),
                    [('f', 'F', T)], ('B', None), lambda S, f, T=T, req=req: req(S, T, f), ens, ('C13',)))
    return out


def t_c14(tier):
    out = []
    for T in types(tier):
        for pol in ['raw'] + POLICIES:
            raw = pol == 'raw'
            mk = (lambda n: 'ieme::raw_fraction<%s>(%s_n, %s_d)' % (T, n, n)) if raw else (lambda n: '%s(%s_n, %s_d)' % (fr(T, pol), n, n))
            pt = (lambda e: '  auto const r = %s; *o_res_n = r.numerator; *o_res_d = r.denominator;' % e) if raw else put
            what = ('raw fraction' if raw else 'fraction under ops::' + pol) + ' over ' + T
            one = [('f', 'F', T)]
            sym = lambda S, f, T=T: pre_components(S, T, f)
            if not raw:
                out.append(Target('t_abs_%s_%s' % (pol, SHORT[T]), 'abs of a ' + what, pt('ieme::abs(%s)' % mk('f')), one, ('F', T), sym,
                                  lambda S, f, res: [('defined exactly when the operand is', ('C14',), lambda: S.Iff(res.d != 0, f.d != 0)),
                                                     ('not negative', ('C14',), lambda: S.val(res) >= S.num(0)),
                                                     ('equal magnitude', ('C14',), lambda: S.Or(S.val(res) == S.val(f), S.val(res) == -S.val(f)))],
                                  ('C14',)))
            if raw or pol in ('safe_reduced_io', 'fast') or tier != 'quick':
                out.append(Target('t_recip_%s_%s' % (pol, SHORT[T]), 'reciprocal of a ' + what, pt('ieme::reciprocal(%s)' % mk('f')), one, ('F', T),
                                  lambda S, f: [], lambda S, f, res: [('components exchanged', ('C14',), lambda: S.And(res.n == f.d, res.d == f.n))],
                                  ('C14',)))
                out.append(Target('t_recip2_%s_%s' % (pol, SHORT[T]), 'reciprocal applied twice to a ' + what,
                                  pt('ieme::reciprocal(ieme::reciprocal(%s))' % mk('f')), one, ('F', T), lambda S, f: [],
                                  lambda S, f, res: [('identity', ('C14',), lambda: S.And(res.n == f.n, res.d == f.d))], ('C14',)))
                out.append(Target('t_norm_%s_%s' % (pol, SHORT[T]), 'normalize_signs of a ' + what, pt('ieme::normalize_signs(%s)' % mk('f')), one,
                                  ('F', T), sym,
                                  lambda S, f, res: [('denominator not negative', ('C14',), lambda: res.d >= 0),
                                                     ('defined exactly when the operand is', ('C14',), lambda: S.Iff(res.d != 0, f.d != 0)),
                                                     ('value preserved', ('C14',), lambda: S.val(res) == S.val(f)),
                                                     ('component magnitudes preserved', ('C14',),
                                                      lambda: S.And(S.abs(res.n) == S.abs(f.n), S.abs(res.d) == S.abs(f.d)))], ('C14',)))
                for q in ('are_identical', 'are_different'):
                    two = '%s, %s' % (mk('f'), mk('g') if raw else '%s(g_n, g_d)' % fr(T, 'fast_reduced_o'))
                    out.append(Target('t_%s_%s_%s' % (q, pol, SHORT[T]), '%s of a %s and another' % (q, what), '  *o_res = ieme::%s(%s);' % (q, two),
                                      [('f', 'F', T), ('g', 'F', T)], ('B', None), lambda S, f, g: [],
                                      lambda S, f, g, res, q=q: [('component-wise', ('C14',), lambda: S.Iff(
                                          res if q == 'are_identical' else S.Not(res), S.And(f.n == g.n, f.d == g.d)))], ('C14',)))
    return out


def t_c15(tier):
    out = []
    for T in types(tier):
        for pol in ('safe_reduced_io', 'safe', 'fast'):
            for std in (0, 1):
                h = 'std::hash<%s>{}(%s)' if std else 'ieme::hash(%s)'
                g = lambda n: (h % ((fr(T, pol), '%s(%s_n, %s_d)' % (fr(T, pol), n, n)) if std else '%s(%s_n, %s_d)' % (fr(T, pol), n, n)))

                def ens(S, a, b, res):
                    S.hint('canon', a, b)
                    return [('equal values have equal hashes', ('C15',), lambda: S.Implies(S.val(a) == S.val(b), res[0] == res[1])),
                            ('all undefined fractions hash alike', ('C15',), lambda: S.Implies(S.And(a.d == 0, b.d == 0), res[0] == res[1]))]
                out.append(Target('t_hash%d_%s_%s' % (std, pol, SHORT[T]), '%s of two fractions under ops::%s over %s' % (
                    ('ieme::hash', 'std::hash')[std], pol, T), '  *o_res_x = %s; *o_res_y = %s;' % (g('a'), g('b')),
                    [('a', 'F', T), ('b', 'F', T)], ('L', [('x', 'unsigned long'), ('y', 'unsigned long')]),
                    lambda S, a, b, T=T: pre_components(S, T, a, b), ens, ('C15',), grid=grid_equal))
    for W, T in MIXPAIRS:
        for pol in ('safe_reduced_io', 'fast'):
            for std in (0, 1):
                mk = lambda n, W=W, T=T, pol=pol: '%s(%s_w, %s(%s_n, %s_d))' % (mx(W, T, pol), n, fr(T, pol), n, n)
                g = lambda n: ('std::hash<%s>{}(%s)' % (mx(W, T, pol), mk(n))) if std else 'ieme::hash(%s)' % mk(n)

                def reqm(S, a, b, T=T):
                    r = []
                    for m in (a, b):
                        r += pre_components(S, T, m.f) + [('defined operand', lambda m=m: m.f.d != 0), ('canonical operand', lambda m=m: canonical_mixed(S, m))]
                    return r

                def ensm(S, a, b, res):
                    S.hint('canon', a.f, b.f)
                    return [('equal parts have equal hashes', ('C15',), lambda: S.Implies(S.And(a.w == b.w, S.val(a.f) == S.val(b.f)), res[0] == res[1]))]
                out.append(Target('t_mhash%d_%s_%s_%s' % (std, pol, SHORT[W], SHORT[T]), '%s of two mixed numbers under ops::%s (whole %s, fraction %s)' % (
                    ('ieme::hash', 'std::hash')[std], pol, W, T), '  *o_res_x = %s; *o_res_y = %s;' % (g('a'), g('b')),
                    [('a', 'M', (W, T)), ('b', 'M', (W, T))], ('L', [('x', 'unsigned long'), ('y', 'unsigned long')]), reqm, ensm, ('C15',),
                    grid=grid_equal_mixed))
    return out


def grid_equal():
    for n in [3, 0, 5, 1, 2, 4, 6, 7, -1, -2, -3, -4, -5, -6, -7]:
        for d in (4, 1, 2, 3, 5, -6, -5, -2, -1):
            for k, j in ((1, 1), (1, 2), (2, 3), (1, -1), (-2, 3), (1, 1000), (12, 18)):
                yield [n * k, d * k, n * j, d * j]


def grid_equal_mixed():
    for w in (-3, -1, 0, 1, 2, 1000):
        for n, d, m, e in grid_equal():
            if (n * d > 0) == (w > 0) or not n or not w:
                yield [w, n, d, w, m, e]


def t_c22(tier):
    out = []
    for T in TT:
        s = signed(T)
        for pol in ('safe_reduced_io', 'fast'):
            f = fr(T, pol)

            def req(S, x, T=T, s=s):
                r = [('defined', lambda: x.d != 0)]
                if s:
                    r.append(('lowest-terms form representable', lambda: S.Not(S.Or(S.And(x.n == tmin(T), x.d == -1), S.And(x.n == -1, x.d == tmin(T))))))
                return r
            ach = ('C22',)
            specs = dict(
                max=lambda S, x, res: [('not below any defined fraction', ach, lambda: S.val(x) <= S.val(res)), ('defined', ach, lambda: res.d != 0)],
                min=lambda S, x, res: [('not above any defined fraction', ach, lambda: S.val(x) >= S.val(res)), ('defined', ach, lambda: res.d != 0)],
                smallest=lambda S, x, res: [('least positive value', ach, lambda: S.Implies(S.val(x) > S.num(0), S.val(x) >= S.val(res))),
                                            ('positive', ach, lambda: S.val(res) > S.num(0)), ('defined', ach, lambda: res.d != 0)],
                undefined=lambda S, x, res: [('undefined', ach, lambda: res.d == 0)])
            for src, names in (('ieme::limits', dict(max='max', min='min', smallest='smallest', undefined='undefined')),
                               ('std::numeric_limits', dict(max='max', min='min', lowest='min', epsilon='smallest', quiet_NaN='undefined'))):
                for nm, sp in names.items():
                    out.append(Target('t_%s_%s_%s_%s' % (src[:3], nm, pol, SHORT[T]), '%s<fraction under ops::%s over %s>::%s()' % (src, pol, T, nm),
                                      put('%s<%s>::%s()' % (src, f, nm)), [('x', 'F', T)], ('F', T), req, specs[sp], ach))
    return out


def t_c25(tier):
    out = []
    P = ('C25',)

    def same(S, f, res):
        return [('numerator kept', P, lambda: res.n == f.n), ('denominator kept', P, lambda: res.d == f.d)]
    pairs = [('int', 'int'), ('int', 'long'), ('long', 'long'), ('unsigned int', 'long'), ('unsigned int', 'unsigned long'), ('long', 'int'),
             ('short', 'int'), ('signed char', 'long'), ('short', 'short'), ('int', 'unsigned int')]
    for T in ('int', 'long', 'unsigned int', 'short', 'signed char', 'unsigned long'):
        for pol in ('safe_reduced_io', 'fast'):
            f = fr(T, pol)
            n = '%s_%s' % (pol, T.replace(' ', '_'))
            w = ' over %s (ops::%s)' % (T, pol)
            one = [('f', 'F', T)]
            no = lambda S, *a: []
            out.append(Target('t_comp_' + n, 'construction from components' + w, put('%s(f_n, f_d)' % f), one, ('F', T), no, same, P))
            out.append(Target('t_raw_' + n, 'construction from a raw fraction' + w, put('%s(ieme::raw_fraction<%s>(f_n, f_d))' % (f, T)), one, ('F', T), no, same, P))
            out.append(Target('t_int_' + n, 'construction from an integer' + w, put('%s(x)' % f), [('x', 'R', T)], ('F', T), no,
                              lambda S, x, res: [('numerator is the integer', P, lambda: res.n == x), ('denominator one', P, lambda: res.d == 1)], P))
            out.append(Target('t_def_' + n, 'default construction' + w, put('%s()' % f), [], ('F', T), no,
                              lambda S, res: [('0/1', P, lambda: S.And(res.n == 0, res.d == 1))], P))
            out.append(Target('t_copy_' + n, 'copy construction and assignment' + w,
                              '  %s const a(f_n, f_d); %s b(a); %s r; r = b; *o_res_n = r.numerator(); *o_res_d = r.denominator();' % (f, f, f), one, ('F', T),
                              no, same, P))
            for k, (gn, gd) in enumerate((('num', 'den'), ('numerator', 'denominator'))):
                out.append(Target('t_get%d_%s' % (k, n), 'accessors %s and %s' % (gn, gd) + w,
                                  '  %s const c(f_n, f_d); %s m(f_n, f_d); *o_res_a = c.%s(); *o_res_b = c.%s(); *o_res_c = m.%s(); *o_res_d = m.%s();' % (
                                      f, f, gn, gd, gn, gd), one, ('L', [(x, T) for x in 'abcd']), no,
                                  lambda S, f, res: [('constant accessors read the component', P, lambda: S.And(res[0] == f.n, res[1] == f.d)),
                                                     ('mutable accessors read the component', P, lambda: S.And(res[2] == f.n, res[3] == f.d))], P))
                out.append(Target('t_set%d_%s' % (k, n), 'writing through %s and %s' % (gn, gd) + w,
                                  '  %s a(f_n, f_d); %s b(f_n, f_d); a.%s() = x; b.%s() = x; *o_res_an = a.raw().numerator; *o_res_ad = a.raw().denominator; '
                                  '*o_res_bn = b.raw().numerator; *o_res_bd = b.raw().denominator;' % (f, f, gn, gd), one + [('x', 'R', T)],
                                  ('L', [(x, T) for x in ('an', 'ad', 'bn', 'bd')]), no,
                                  lambda S, f, x, res: [('numerator written, denominator untouched', P, lambda: S.And(res[0] == x, res[1] == f.d)),
                                                        ('denominator written, numerator untouched', P, lambda: S.And(res[2] == f.n, res[3] == x))], P))
            out.append(Target('t_setraw_' + n, 'writing through raw()' + w,
                              '  %s a(f_n, f_d); a.raw().numerator = x; a.raw().denominator = y; %s const& c = a; *o_res_an = c.raw().numerator; '
                              '*o_res_ad = c.raw().denominator; *o_res_bn = c.num(); *o_res_bd = c.den();' % (f, f), one + [('x', 'R', T), ('y', 'R', T)],
                              ('L', [(x, T) for x in ('an', 'ad', 'bn', 'bd')]), no,
                              lambda S, f, x, y, res: [('raw access reads and writes the components', P, lambda: S.And(
                                  res[0] == x, res[1] == y, res[2] == x, res[3] == y))], P))
    for A, Bt in pairs:
        def req(S, f, Bt=Bt):
            return [('components representable in the target', lambda: S.And(S.infull(Bt, f.n), S.infull(Bt, f.d)))]
        for p1, p2 in (('safe_reduced_io', 'safe_reduced_io'), ('safe_reduced_io', 'fast'), ('fast', 'safe')):
            n = '%s_%s_%s_%s' % (A.replace(' ', '_'), Bt.replace(' ', '_'), p1, p2)
            out.append(Target('t_conv_' + n, 'conversion from %s (ops::%s) to %s (ops::%s)' % (A, p1, Bt, p2),
                              '  %s const a(f_n, f_d); %s const r(a); *o_res_n = r.numerator(); *o_res_d = r.denominator();' % (fr(A, p1), fr(Bt, p2)),
                              [('f', 'F', A)], ('F', Bt), req, same, P))
        out.append(Target('t_rawconv_%s_%s' % (A.replace(' ', '_'), Bt.replace(' ', '_')), 'conversion of a raw fraction from %s to %s' % (A, Bt),
                          '  ieme::raw_fraction<%s> const a(f_n, f_d); ieme::raw_fraction<%s> const r(a); *o_res_n = r.numerator; *o_res_d = r.denominator;' % (
                              A, Bt), [('f', 'F', A)], ('F', Bt), req, same, P))
    for k, (a, b, en, ed) in enumerate(((1, 3, 1, 3), (-7, 5, -7, 5), (6, 4, 3, 2), (5, -10, -1, 2), (1000000007, 998244353, 1000000007, 998244353))):
        for T in ('int', 'long'):
            out.append(Target('t_ratio%d_%s' % (k, SHORT[T]), 'construction from std::ratio<%d, %d> over %s' % (a, b, T),
                              put('%s(std::ratio<%d, %d>{})' % (fr(T, 'safe_reduced_io'), a, b)), [], ('F', T), lambda S: [],
                              lambda S, res, en=en, ed=ed: [('components of the ratio', P, lambda: S.And(res.n == en, res.d == ed))], P))
    return out


def t_c20(tier):
    out = []
    P = 'C20'
    pols = ('safe_reduced_io', 'fast') if tier == 'quick' else POLICIES

    def conv(S, x):
        return x
    pairs = [('int', 'long'), ('long', 'int'), ('unsigned int', 'long'), ('int', 'unsigned int')]
    for pol in pols:
        Pp = policy(pol)
        for A, Bt in pairs:
            w = max(width(A), width(Bt))
            C = A if width(A) > width(Bt) else Bt if width(Bt) > width(A) else (A if not signed(A) else Bt)
            for op in ARITH + CMP:
                for kinds in KS:
                    ps = [('a', kinds[0], A), ('b', kinds[1], Bt)]
                    e = ['%s(%s_n, %s_d)' % (fr(T, pol), n, n) if k == 'F' else n for n, k, T in ps]
                    ct = OpContract(Pp, op, kinds, C)

                    def req(S, l, r, C=C, A=A, Bt=Bt, ct=ct):
                        out = []
                        for x in (l, r):
                            for y in ((x.n, x.d) if isinstance(x, F) else (x,)):
                                out.append(('operand representable in the common representation', lambda y=y: S.infull(C, y)))
                        return out + ct.requires(S, l, r)

                    def ens(S, l, r, res, ct=ct, op=op):
                        keep = ('C01', 'C02', 'C03', 'C04')
                        return [(lb, (P,), th) for lb, ps_, th in ct.ensures(S, l, r, res) if set(ps_) & set(keep)]
                    nm = 't_mix_%s_%s_%s_%s_%s' % (pol, op, ''.join(kinds), SHORT[A], SHORT[Bt])
                    tt = '%s over %s %s %s over %s under ops::%s' % ({'F': 'fraction', 'R': 'integer'}[kinds[0]], A, SYMBOL[op],
                                                                     {'F': 'fraction', 'R': 'integer'}[kinds[1]], Bt, pol)
                    if op in CMP:
                        out.append(Target(nm, tt, '  *o_res = %s %s %s;' % (e[0], SYMBOL[op], e[1]), ps, ('B', None), req, ens, (P,)))
                    else:
                        body = '  auto const r = %s %s %s; static_assert(std::is_same_v<std::decay_t<decltype(r.num())>, %s>); *o_res_n = r.numerator(); ' \
                            '*o_res_d = r.denominator();' % (e[0], SYMBOL[op], e[1], C)
                        out.append(Target(nm, tt, body, ps, ('F', C), req, ens, (P,)))
        # compound assignment
        for A, Bt in (('int', 'int'), ('int', 'long'), ('long', 'int')):
            for op in ARITH:
                for kinds in (('F', 'F'), ('F', 'R')):
                    ct = OpContract(Pp, op, kinds, A)
                    ps = [('a', 'F', A), ('b', kinds[1], Bt)]

                    def req(S, l, r, A=A, ct=ct):
                        out = []
                        for y in ((r.n, r.d) if isinstance(r, F) else (r,)):
                            out.append(('right operand representable in the left representation', lambda y=y: S.infull(A, y)))
                        return out + ct.requires(S, l, r)
                    rb = [('bn', Bt), ('bd', Bt)] if kinds[1] == 'F' else [('b', Bt)]

                    def ens(S, l, r, res, ct=ct, kinds=kinds):
                        keep = ('C01', 'C02', 'C03')
                        cl = [(lb, (P,), th) for lb, ps_, th in ct.ensures(S, l, r, F(res[0], res[1])) if set(ps_) & set(keep)]
                        cl.append(('returns the left operand', (P,), lambda: res[2] == 1))
                        if kinds[1] == 'F':
                            cl.append(('right operand unchanged', (P,), lambda: S.And(res[3] == r.n, res[4] == r.d)))
                        else:
                            cl.append(('right operand unchanged', (P,), lambda: res[3] == r))
                        return cl
                    mk = '%s y(b_n, b_d);' % fr(Bt, pol) if kinds[1] == 'F' else '%s y = b;' % Bt
                    get = '*o_res_bn = y.numerator(); *o_res_bd = y.denominator();' if kinds[1] == 'F' else '*o_res_b = y;'
                    out.append(Target('t_cmpd_%s_%s_%s_%s_%s' % (pol, op, ''.join(kinds), SHORT[A], SHORT[Bt]),
                                      'fraction over %s %s= %s over %s under ops::%s' % (A, SYMBOL[op], {'F': 'fraction', 'R': 'integer'}[kinds[1]], Bt, pol),
                                      '  %s x(a_n, a_d); %s auto& q = (x %s= y); *o_res_n = x.numerator(); *o_res_d = x.denominator(); *o_res_same = (&q == &x); %s'
                                      % (fr(A, pol), mk, SYMBOL[op], get), ps, ('L', [('n', A), ('d', A), ('same', 'int')] + rb), req, ens, (P,)))
                if A == Bt:
                    ct = OpContract(Pp, op, ('F', 'F'), A)

                    def req2(S, l, ct=ct):
                        return ct.requires(S, l, l)

                    def ens2(S, l, res, ct=ct):
                        keep = ('C01', 'C02', 'C03')
                        return [(lb, (P,), th) for lb, ps_, th in ct.ensures(S, l, l, F(res[0], res[1])) if set(ps_) & set(keep)] + \
                            [('returns the left operand', (P,), lambda: res[2] == 1)]
                    out.append(Target('t_alias_%s_%s_%s' % (pol, op, SHORT[A]), 'a %s= a over %s under ops::%s' % (SYMBOL[op], A, pol),
                                      '  %s x(a_n, a_d); auto& q = (x %s= x); *o_res_n = x.numerator(); *o_res_d = x.denominator(); *o_res_same = (&q == &x);'
                                      % (fr(A, pol), SYMBOL[op]), [('a', 'F', A)], ('L', [('n', A), ('d', A), ('same', 'int')]), req2, ens2, (P,)))
    return out


def t_c21(tier):
    out = []
    P = ('C21',)
    LIT = 'ieme::literals::'
    pols = ('safe_reduced_io', 'safe', 'fast', 'fast_reduced_i') if tier == 'quick' else POLICIES
    UL, LL = 'unsigned long long', 'long long'
    for T in TT:
        # (name, literal expression, sign, type of k, policies)
        forms = [('fr', 'ieme::literals::operator""_fr(k)', 1, UL, ('defaults',)), ('pos', '+ieme::literals::operator""_fr(k)', 1, UL, ('defaults',))]
        if signed(T):
            forms += [('neg', '-ieme::literals::operator""_fr(k)', -1, UL, ('defaults',)), ('negneg', '-(-ieme::literals::operator""_fr(k))', 1, UL, ('defaults',)),
                      ('posneg', '+(-ieme::literals::operator""_fr(k))', -1, UL, ('defaults',))]
        forms += [('any', 'LIT<false, OPS>(k)', 1, UL, pols), ('plus', '+LIT<false, OPS>(k)', 1, UL, pols)]
        if signed(T):
            forms += [('sgn', 'LIT<true, OPS>(k)', 1, LL, pols), ('sgnplus', '+LIT<true, OPS>(k)', 1, LL, pols), ('sgnneg', '-LIT<true, OPS>(k)', -1, LL, pols),
                      ('minus', '-LIT<false, OPS>(k)', -1, UL, pols)]
        for nm, e, sg, K, ps in forms:
            for pol in ps:
                Pp = policy(pol)
                ex = e.replace('LIT', LIT + 'denominator_literal').replace('OPS', 'ieme::ops::' + pol)
                tt = '%s (policy %s, representation %s)' % (e.replace('ieme::literals::operator""_fr(k)', 'k_fr').replace('LIT', 'denominator_literal').replace('OPS', pol), pol, T)
                tg = '%s_%s_%s' % (nm, pol, SHORT[T])
                fit = lambda S, k, T=T: [('denominator representable', lambda: S.fits(T, k) if signed(T) else S.infull(T, k))]
                out.append(Target('t_intlit_' + tg, 'integer / ' + tt,
                                  put('%s(n / (%s))' % ('', ex)) + '\n  static_assert(std::is_same_v<std::decay_t<decltype(n / (%s))>, %s>);' % (ex, fr(T, pol)),
                                  [('n', 'R', T), ('k', 'R', K)], ('F', T), lambda S, n, k, fit=fit: fit(S, k),
                                  lambda S, n, k, res, sg=sg: [('numerator kept', P, lambda: res.n == n), ('denominator of the literal', P, lambda: res.d == sg * k)], P))
                ct = OpContract(Pp, 'divides', ('F', 'R'), T)
                out.append(Target('t_fraclit_' + tg, 'fraction / ' + tt, put('%s(f_n, f_d) / (%s)' % (fr(T, pol), ex)),
                                  [('f', 'F', T), ('k', 'R', K)], ('F', T),
                                  lambda S, f, k, fit=fit, ct=ct, sg=sg: fit(S, k) + ct.requires(S, f, sg * k),
                                  lambda S, f, k, res, ct=ct, sg=sg: [(l, P, th) for l, q, th in ct.ensures(S, f, sg * k, res) if set(q) & {'C02', 'C07'}], P))
    dec = 'auto const r = ieme::literals::operator""_dec(s); static_assert(std::is_same_v<std::decay_t<decltype(r)>, ieme::fraction<std::intmax_t, ' \
        'ieme::ops::defaults>>); *o_res_n = r.numerator(); *o_res_d = r.denominator();'
    for c in forms_of_strings():
        tag = '%d%s' % (c.b, 'p' if c.dot else 'n')
        out.append(Target('t_decinvalid_' + tag, '_dec of an invalid string (%s)' % form_name(c), dec, [('s', 'Z', None)], ('F', 'long'),
                          lambda S, s, c: [(form_name(c), lambda: S.form(s, c)), ('not a literal', lambda: S.Not(is_literal(S, s, c)))],
                          lambda S, s, c, res: [('an error is raised', P, lambda: S.Or())], P, extra=dict(cases=[c], catch=True, throws=lambda S, s, c: [])))
    return out + literal_targets(tier, P, lambda S, s, c, res: [('defined', P, lambda: res.d != 0), ('exact value of the literal', P, lambda: literal_exact(S, s, c, res))],
                                 body=dec, Ts=('long',), kind='Z', what='value of _dec literals', extra=dict(catch=True))


def t_c24(tier):
    out = []
    P = ('C24',)
    pols = ('defaults', 'fast') if tier == 'quick' else POLICIES
    for T in TT:
        for pol in ('raw',) + tuple(pols):
            ty = 'ieme::raw_fraction<%s>' % T if pol == 'raw' else fr(T, pol)
            what = 'raw fraction over %s' % T if pol == 'raw' else 'fraction over %s under ops::%s' % (T, pol)
            g = lambda v: '*o_res_n = %s.numerator%s; *o_res_d = %s.denominator%s;' % ((v, '', v, '') if pol == 'raw' else (v, '()', v, '()'))
            tg = '%s_%s' % (pol, SHORT[T])
            same = lambda S, r, i: ('returns the stream given', P, lambda: r[i] == 1)
            out.append(Target('t_write_' + tg, 'output of a ' + what,
                              '  vc_start("", 0); auto& s = vc_ostream(); auto& q = (s << %s(f_n, f_d)); *o_res_same = (&q == &s); vc_text(o_res_text);' % ty,
                              [('f', 'F', T)], ('L', [('same', 'int'), ('text', 'text')]), lambda S, f: [],
                              lambda S, f, r: [('numerator, slash and denominator are written', P, lambda: S.text_is(r[1], [f.n, '/', f.d])), same(S, r, 0)], P))

            def ens(S, x, a, r, T=T):
                ok, n, d, rest = S.read(x, T)
                return [('numerator stored', P, lambda: S.Implies(ok, r[0] == n)), ('denominator stored', P, lambda: S.Implies(ok, r[1] == d)), same(S, r, 2),
                        ('consumes a numerator, up to and including the next slash, and a denominator', P, lambda: S.Implies(ok, S.left(r[3], rest)))]
            out.append(Target('t_read_' + tg, 'input of a ' + what,
                              '  vc_start(x, x_len); auto& s = vc_istream(); %s f(a_n, a_d); auto& q = (s >> f); *o_res_same = (&q == &s); %s vc_text(o_res_text);' % (ty, g('f')),
                              [('x', 'Y', None), ('a', 'F', T)], ('L', [('n', T), ('d', T), ('same', 'int'), ('text', 'text')]), lambda S, x, a: [], ens, P))
            out.append(Target('t_round_' + tg, 'output then input of a ' + what,
                              '  vc_start("", 0); vc_ostream() << %s(f_n, f_d); %s g(a_n, a_d); vc_istream() >> g; %s' % (ty, ty, g('g')), [('f', 'F', T), ('a', 'F', T)], ('F', T),
                              lambda S, f, a: [], lambda S, f, a, r: [('components read back', P, lambda: S.And(r.n == f.n, r.d == f.d))], P))
    return out


CHRONO = {  # source period -> target periods
    'q': [('std::chrono::minutes::period', 'std::chrono::hours::period'), ('std::ratio<3600>', 'std::milli'), ('std::ratio<1, 30>', 'std::ratio<5, 7>'),
          ('std::milli', 'std::ratio<1>'), ('std::ratio<60>', 'std::ratio<60>')],
}
PERIODS = {'std::chrono::minutes::period': (60, 1), 'std::chrono::hours::period': (3600, 1), 'std::ratio<3600>': (3600, 1), 'std::milli': (1, 1000),
           'std::ratio<1, 30>': (1, 30), 'std::ratio<5, 7>': (5, 7), 'std::ratio<1>': (1, 1), 'std::ratio<60>': (60, 1), 'std::nano': (1, 10 ** 9),
           'std::micro': (1, 10 ** 6)}


def t_c23(tier):
    out = []
    P = ('C23',)
    pols = ('safe_reduced_io', 'safe', 'fast', 'fast_reduced_i') if tier == 'quick' else POLICIES
    fin = lambda e: '  auto const t = %s; auto const c = t.count(); using P = std::decay_t<decltype(t)>::period; *o_res_n = c.numerator(); ' \
        '*o_res_d = c.denominator(); *o_res_pn = P::num; *o_res_pd = P::den;' % e
    res = lambda T: ('L', [('n', T), ('d', T), ('pn', 'long'), ('pd', 'long')])
    X = dict(inline=lambda ct, stack: ct.key[0] == 'op')      # the intermediate of two scalings: bodies, not contracts
    period = lambda S, r, p: ('period of the result', P, lambda: S.And(r[2] == p[0], r[3] == p[1]))
    for T in ('int', 'long'):
        for pol in pols:
            Pp = policy(pol)
            ops = 'ieme::ops::' + pol
            # to_fractional keeps count and period
            for per in ('std::milli', 'std::ratio<60>', 'std::ratio<5, 7>', 'std::ratio<1>', 'std::nano'):
                ens = lambda S, x, r, per=per: [('tick count kept', P, lambda: S.val(F(r[0], r[1])) == S.num(x)), ('defined', P, lambda: r[1] != 0),
                                                period(S, r, PERIODS[per])]
                D = 'std::chrono::duration<%s, %s>' % (T, per)
                tg = '%s_%s_%d_%d' % ((pol, SHORT[T]) + PERIODS[per])
                tt = ' over %s, period %s, ops::%s' % (T, per, pol)
                req = lambda S, x, T=T: [('magnitude representable', lambda: S.fits(T, x))]
                TP = 'std::chrono::time_point<std::chrono::system_clock, %s>' % D
                FD = 'ieme::chrono::duration<%s, %s, %s>' % (T, per, ops)
                FT = 'ieme::chrono::time_point<std::chrono::system_clock, %s, %s, %s>' % (T, per, ops)
                lam = '([](%s d) { return d; })(%s)'
                df = Pp.cpp() == policy('defaults').cpp()     # the policy of to_fractional can only be chosen through the target type
                out.append(Target('t_tofrac_' + tg, ('to_fractional of' if df else 'fractional counterpart of') + ' a duration' + tt,
                                  fin('ieme::chrono::to_fractional(%s(x))' % D if df else lam % (FD, D + '(x)')), [('x', 'R', T)], res(T), req, ens, P))
                out.append(Target('t_totp_' + tg, ('to_fractional of' if df else 'fractional counterpart of') + ' a time point' + tt,
                                  fin(('ieme::chrono::to_fractional(%s(%s(x)))' % (TP, D) if df else lam % (FT, '%s(%s(x))' % (TP, D))) + '.time_since_epoch()'),
                                  [('x', 'R', T)], res(T), req, ens, P))
            # converting fractional durations (and whole ones) to another period
            prs = CHRONO['q'] + ([] if tier == 'quick' else [(b, a) for a, b in CHRONO['q']] + [('std::nano', 'std::ratio<3600>'), ('std::micro', 'std::milli')])
            for A, Bp in prs:
                a, b = PERIODS[A], PERIODS[Bp]
                q = Fraction(a[0] * b[1], a[1] * b[0])
                tg = '%s_%s_%d_%d_%d_%d' % ((pol, SHORT[T]) + a + b)
                tt = ' over %s, period %s to %s, ops::%s' % (T, A, Bp, pol)

                def req(S, f, T=T, q=q, Pp=Pp):
                    f = as_f(f)

                    def fit():
                        g = S.red(f) if Pp.reduces_input() else f
                        return S.ffits(T, F(g.n * q.numerator, g.d * q.denominator))
                    return pre_components(S, T, f) + [('defined', lambda: f.d != 0), ('scaled numerator and denominator fit', fit)]

                def ens(S, f, r, q=q, b=b):
                    return [('defined', P, lambda: r[1] != 0), ('count scaled by the exact ratio of the periods', P, lambda: S.val(F(r[0], r[1])) == S.val(as_f(f)) * S.num(q)),
                            period(S, r, b)]
                DA, DB = ('ieme::chrono::duration<%s, %s, %s>' % (T, x, ops) for x in (A, Bp))
                src = '%s(%s(f_n, f_d))' % (DA, fr(T, pol))
                LA, LB = ('ieme::chrono::duration_like<std::chrono::duration<%s, %s>, %s>' % (T, x, ops) for x in (A, Bp))
                SA, SB = ('std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<%s, %s>>' % (T, x) for x in (A, Bp))
                for nm, e in (('imp', '([](%s d) { return d; })(%s)' % (DB, src)),
                              ('cast', 'std::chrono::duration_cast<%s>(%s(%s(f_n, f_d)))' % (LB, LA, fr(T, pol))),
                              ('tp', '([](ieme::chrono::time_point_like<%s, %s> d) { return d; })(ieme::chrono::time_point<std::chrono::system_clock, %s, %s, %s>(%s))'
                               '.time_since_epoch()' % (SB, ops, T, A, ops, src))):
                    out.append(Target('t_%s_%s' % (nm, tg), {'imp': 'implicit conversion of a fractional duration', 'cast': 'duration_cast of a fractional duration',
                                                             'tp': 'implicit conversion of a fractional time point'}[nm] + tt, fin(e), [('f', 'F', T)], res(T), req, ens, P, extra=X))
                out.append(Target('t_whole_' + tg, 'implicit conversion of a whole duration' + tt, fin('([](%s d) { return d; })(std::chrono::duration<%s, %s>(x))' % (DB, T, A)),
                                  [('x', 'R', T)], res(T), req, ens, P, extra=X))
    # the named durations and clock_wrapper
    for nm, pr in (('nanoseconds', (1, 10 ** 9)), ('microseconds', (1, 10 ** 6)), ('milliseconds', (1, 1000)), ('seconds', (1, 1)), ('minutes', (60, 1)), ('hours', (3600, 1))):
        out.append(Target('t_alias_' + nm, 'std::chrono::%s to ieme::chrono::%s' % (nm, nm), fin('([](ieme::chrono::%s d) { return d; })(std::chrono::%s(x))' % (nm, nm)),
                          [('x', 'R', 'long')], res('long'), lambda S, x: [('magnitude representable', lambda: S.fits('long', x))],
                          lambda S, x, r, pr=pr: [('tick count kept', P, lambda: S.val(F(r[0], r[1])) == S.num(x)), ('defined', P, lambda: r[1] != 0), period(S, r, pr)], P))
    for T in ('int', 'long'):
        for per in ('std::milli', 'std::ratio<5, 7>'):
            for pol in pols:
                nm = '%s_%s_%d' % (pol, SHORT[T], PERIODS[per][1])
                pre = 'struct K_%s { using rep = %s; using period = %s; using duration = std::chrono::duration<rep, period>; using time_point = std::chrono::' \
                    'time_point<K_%s>; static constexpr bool is_steady = true; static inline rep v = 0; static time_point now() noexcept { return time_point(duration(v)); } };' \
                    % (nm, T, per, nm)
                out.append(Target('t_clock_' + nm, 'clock_wrapper::now over %s, period %s, ops::%s' % (T, per, pol),
                                  '  using W = ieme::chrono::clock_wrapper<K_%s, %s, ieme::ops::%s>; using FR = %s;\n'
                                  '  static_assert(std::is_same_v<W::rep, FR> && std::is_same_v<W::duration::rep, FR> && std::is_same_v<W::time_point::rep, FR>);\n' % (
                                      nm, per, pol, fr(T, pol)) +
                                  '  K_%s::v = x;\n' % nm + fin('ieme::chrono::clock_wrapper<K_%s, %s, ieme::ops::%s>::now().time_since_epoch()' % (nm, per, pol)),
                                  [('x', 'R', T)], res(T), lambda S, x, T=T: [('magnitude representable', lambda: S.fits(T, x))],
                                  lambda S, x, r, per=per: [('tick count kept', P, lambda: S.val(F(r[0], r[1])) == S.num(x)), ('defined', P, lambda: r[1] != 0),
                                                            period(S, r, PERIODS[per])], P, extra=dict(pre=pre)))
    return out


FLOATS = {'float': ('unsigned int', 23, 8), 'double': ('unsigned long', 52, 11)}


def grid_bits(fl, T):
    """bit patterns worth trying: zeros, subnormals, infinities, NaN, and values representable over T"""
    import softfp
    import random
    rng = random.Random(7)
    k = fl
    w, p, eb = softfp.FMT[k]
    top = 2 ** (w - 1)
    special = [0, 1, 2, 3, 2 ** (p - 1) - 1, 2 ** (p - 1), (2 ** eb - 1) << (p - 1), ((2 ** eb - 1) << (p - 1)) + 1, ((2 ** eb - 1) << (p - 1)) + 2 ** (p - 2),
               2 ** (w - 1) - 1]

    def g():
        for b in special:
            yield [b]
            yield [b + top]
        m = tmax(T)
        D = width(T) - (1 if signed(T) else 0)
        for _ in range(6000):
            odd = rng.getrandbits(rng.randint(1, min(p, D))) | rng.choice((0, 1))
            e = rng.randint(-(D - 1), D - 1)
            if e > 0 and odd << e > m:
                e = rng.randint(0, max(0, D - odd.bit_length()))
            x = Fraction(odd) * Fraction(2) ** e
            b = softfp.encode(k, x)
            yield [b + (top if rng.random() < .4 else 0)]
    return g


def t_c16(tier):
    out = []
    P = ('C16',)
    for fl, (U, mb, eb) in FLOATS.items():
        for T in ('int', 'long', 'unsigned int', 'unsigned long'):
            for pol in ('safe_reduced_io', 'safe', 'fast') if tier == 'quick' else POLICIES:
                emax, bias = 2 ** eb - 1, 2 ** (eb - 1) - 1

                def parts(S, b, mb=mb, eb=eb):
                    return S.udiv(b, 2 ** (mb + eb)), S.umod(S.udiv(b, 2 ** mb), 2 ** eb), S.umod(b, 2 ** mb)

                def cases(S, b, mb=mb, bias=bias, emax=emax, parts=parts):
                    """(condition, sign bit, odd, x): the value is (-1)^sign * odd * 2^x"""
                    s, E, m = parts(S, b)
                    z0, o0 = S.ctz(m)
                    z1, o1 = S.ctz(m + 2 ** mb)
                    return [(S.And(E == 0, m != 0), s, o0, 1 - bias - mb + z0), (S.And(E > 0, E < emax), s, o1, E - bias - mb + z1)]

                def req(S, b, T=T, cases=cases):
                    def ok():
                        r = []
                        for c, s, odd, x in cases(S, b):
                            f = lambda v: v <= tmax(T)
                            r.append(S.Implies(S.And(c, x >= 0), f(odd * S.pow(2, x))))
                            r.append(S.Implies(S.And(c, x < 0), S.And(f(odd), f(S.pow(2, -x)))))
                            if not signed(T):
                                r.append(S.Implies(c, s == 0))
                        return S.And(*r)
                    return [('value representable, or not finite', ok)]

                def ens(S, b, res, cases=cases, parts=parts, emax=emax):
                    s, E, m = parts(S, b)
                    cl = [('NaN and infinities are undefined', P, lambda: S.Implies(E == emax, res.d == 0)),
                          ('finite values are defined', P, lambda: S.Implies(E < emax, res.d != 0)),
                          ('zero', P, lambda: S.Implies(S.And(E == 0, m == 0), S.val(res) == S.num(0)))]
                    for (c, s, odd, x), nm in zip(cases(S, b), ('subnormal', 'normal')):
                        sg = S.If(s == 0, odd, -odd)
                        cl.append(('exact value (%s, integer)' % nm, P, lambda c=c, x=x, sg=sg: S.Implies(S.And(c, x >= 0), S.val(res) == S.num(sg * S.pow(2, x)))))
                        cl.append(('exact value (%s, fractional)' % nm, P, lambda c=c, x=x, sg=sg: S.Implies(S.And(c, x < 0), S.val(res) * S.num(S.pow(2, -x)) == S.num(sg))))
                    return cl
                out.append(Target('t_from_%s_%s_%s' % (fl, pol, SHORT[T]), 'to_fraction of a %s under ops::%s over %s' % (fl, pol, T),
                                  '  %s x; std::memcpy(&x, &b, sizeof x);\n' % fl + put('ieme::to_fraction<%s, ieme::ops::%s>(x)' % (T, pol)), [('b', 'R', U)],
                                  ('F', T), req, ens, P, grid=grid_bits(fl, T)))
    return out


def t_c17(tier):
    out = []
    P = ('C17',)
    for fl in ('float', 'double', 'long double'):
        k = softfp.KIND[fl]
        fn = {'float': 'to_float', 'double': 'to_double', 'long double': 'to_long_double'}[fl]
        O = {'float': [('b', 'unsigned int')], 'double': [('b', 'unsigned long')], 'long double': [('b', 'unsigned long'), ('h', 'unsigned short')]}[fl]
        for T in TT:
            for pol in ('safe_reduced_io', 'safe', 'fast') if tier == 'quick' else POLICIES:
                tt = '%s under ops::%s over %s' % (fn, pol, T)
                body = lambda n, o, e: '  { auto const r = %s; static_assert(std::is_same_v<decltype(r), %s const>); struct { %s b; %s } u = {}; ' \
                    'std::memcpy(&u, &r, sizeof r); *o_res_%s = u.b; %s }\n' % (e, fl, {'float': 'unsigned int', 'double': 'unsigned long'}.get(fl, 'unsigned long'), 'unsigned short h;' if len(o) > 1 else '', o[0], '*o_res_%s = u.h;' % o[1] if len(o) > 1 else '')
                x = lambda n: 'ieme::%s(%s(%s_n, %s_d))' % (fn, fr(T, pol), n, n)
                bits = lambda r: r[0] + r[1] * 2 ** 64 if len(r) > 1 else r[0]

                def ens(S, f, res, k=k, bits=bits):
                    g = S.redn(f)
                    return [('correctly rounded quotient of the lowest terms', P, lambda: S.Implies(f.d != 0, bits(res) == S.fdiv(k, S.rn(k, g.n), S.rn(k, g.d)))),
                            ('undefined gives NaN', P, lambda: S.Implies(f.d == 0, S.isnan(k, bits(res))))]
                out.append(Target('t_%s_%s_%s' % (fn, pol, SHORT[T]), tt, body('f', [n for n, _ in O], x('f')), [('f', 'F', T)], ('L', O),
                                  lambda S, f, T=T: pre_components(S, T, f), ens, P))
                O2 = [(n + i, t) for i in '12' for n, t in O]

                def ens2(S, f, g, res):
                    S.hint('canon', f, g)
                    h = len(res) // 2
                    return [('equal fractions give identical results', P, lambda: S.Implies(S.val(f) == S.val(g), S.And(*[res[i] == res[h + i] for i in range(h)])))]
                out.append(Target('t_%s2_%s_%s' % (fn, pol, SHORT[T]), tt + ', of two equal fractions', body('f', [n + '1' for n, _ in O], x('f')) +
                                  body('g', [n + '2' for n, _ in O], x('g')), [('f', 'F', T), ('g', 'F', T)], ('L', O2),
                                  lambda S, f, g, T=T: pre_components(S, T, f, g), ens2, P, grid=grid_equal))
    return out


# ---------------------------------------------------------------- floating-point strings
def fits_literal(S, T, s, c):
    """the digit values, the powers, and the sum and scaled value with the fractional part in lowest terms fit"""
    m = tmax(T)
    p = lambda: S.parts(s, c)
    D = lambda: S.pow(c.b, p().prec)
    X = lambda: S.pow(10 if c.b == 10 else 2, p().X)
    fr = lambda: S.redn(F(p().N, D()))
    top = lambda: p().W * fr().d + fr().n
    out = [('digit values representable', lambda: S.And(p().W <= m, p().N <= m, p().X <= tmax('int'))),
           ('fractional digits', lambda: p().prec <= 64),
           ('powers representable', lambda: S.And(D() <= m, X() <= m)),
           ('sum representable', lambda: top() <= m)]
    if c.mark is not None:
        out.append(('scaled value representable', (lambda: fr().d * X() <= m) if c.sign == '-' else (lambda: top() * X() <= m)))
    return out


def literal_exact(S, s, c, res):
    p = S.parts(s, c)
    X = S.num(S.pow(10 if c.b == 10 else 2, p.X))
    v = S.num(p.W) + S.val(F(p.N, S.pow(c.b, p.prec)))
    return S.val(res) * X == v if c.sign == '-' else S.val(res) == v * X


FPSTR = 'auto r = ieme::floating_point_string_to_fraction<%s>(std::string_view(s, s_len)); *o_res_n = r.num(); *o_res_d = r.den();'


def literal_targets(tier, P, clauses, body=None, Ts=None, kind='G', what='value', extra={}):
    """one target per group of literal shapes"""
    out = []
    for T in Ts or (TT if tier == 'thorough' else ('int', 'long')):
        groups = {}
        for b in (10, 16):
            for c in strs.cases(b):
                k = (b, 'point' if c.dot else 'whole', 'plain' if c.mark is None else 'neg' if c.sign == '-' else 'pos')
                groups.setdefault(k, []).append(c)
        for (b, dt, x), cs in groups.items():
            for i in range(0, len(cs), 3):
                part = cs[i:i + 3]
                out.append(Target('t_lit%d_%s_%s%d_%s' % (b, dt, x, i // 3, SHORT[T]), '%s over %s of base %d literals (%s, exponent %s, part %d)' %
                                  (what, T, b, 'radix point' if dt == 'point' else 'no radix point', x, i // 3 + 1), (body or FPSTR % T),
                                  [('s', kind, None)], ('F', T),
                                  lambda S, s, c, T=T: [('shape of the literal', lambda: S.shape(s, c))] + fits_literal(S, T, s, c),
                                  lambda S, s, c, res: clauses(S, s, c, res), P, extra=dict(extra, cases=part)))
    return out


class Form:
    """base and presence of a radix point: what scanning a sequence first branches on"""

    def __init__(self, b, dot):
        self.b, self.dot = b, dot


def forms_of_strings():
    return [Form(b, dot) for b in (10, 16) for dot in (True, False)]


def is_literal(S, s, c):
    return S.Or(*[S.shape(s, k) for k in strs.cases(c.b) if k.dot == c.dot])


def form_name(c):
    return 'base %d, %s radix point' % (c.b, 'with' if c.dot else 'without')


def t_c18(tier):
    P = ('C18',)
    out = []
    forms, isl, nm = forms_of_strings(), is_literal, form_name
    for c in forms:
        tag = '%d%s' % (c.b, 'p' if c.dot else 'n')
        out.append(Target('t_scan_' + tag, 'scan_floating_point_string (%s)' % nm(c),
                          '*o_res = ieme::parse_utilities::scan_floating_point_string(std::string_view(s, s_len)).has_value();',
                          [('s', 'G', None)], ('B', None), lambda S, s, c: [(nm(c), lambda: S.form(s, c))],
                          lambda S, s, c, res: [('accepted exactly when it is a literal', P, lambda: S.Iff(res, isl(S, s, c)))], P, extra=dict(cases=[c])))
        for T in TT if tier == 'thorough' else ('int', 'long'):
            out.append(Target('t_invalid_%s_%s' % (tag, SHORT[T]), 'floating_point_string_to_fraction over %s of an invalid string (%s)' % (T, nm(c)), FPSTR % T,
                              [('s', 'G', None)], ('F', T),
                              lambda S, s, c: [(nm(c), lambda: S.form(s, c)), ('not a literal', lambda: S.Not(isl(S, s, c)))],
                              lambda S, s, c, res: [('undefined', P, lambda: res.d == 0)], P, extra=dict(cases=[c])))
    return out + literal_targets(tier, P, lambda S, s, c, res: [('defined', P, lambda: res.d != 0)])


def t_c19(tier):
    P = ('C19',)
    return literal_targets(tier, P, lambda S, s, c, res: [('defined', P, lambda: res.d != 0),
                                                          ('exact value of the literal', P, lambda: literal_exact(S, s, c, res))])


TARGETS = dict(C01=t_c01, C02=t_c02, C03=t_c03, C04=t_c04, C05=t_c05, C06=t_c06, C07=t_c07, C08=t_c08, C09=t_c09, C10=t_c10, C11=t_c11, C12=t_c12, C13=t_c13, C14=t_c14,
               C15=t_c15, C16=t_c16, C17=t_c17, C18=t_c18, C19=t_c19, C20=t_c20, C21=t_c21, C22=t_c22, C23=t_c23, C24=t_c24, C25=t_c25, C26=t_c26)
TRUST = [
    'clang 18 front end at -O0: the verified text is the LLVM IR it emits for the current headers; the semantics of that IR as '
    'implemented in vc/sym.py',
    'the verification-condition generator vc/*.py, incl. the lemma schemas it instantiates (proved in lemmas/Ieme.lean)',
    'z3 5.3 (library), z3 4.8.12 and cvc5 1.1.2: an obligation counts as discharged when one of them answers unsat',
]
TRUST_BY_PROPERTY = {}
ASSUMPTIONS = ['preconditions of the entry points: see coverage.entry_points and DESIGN.md (component magnitudes representable, '
               'and the representation conditions named in the property)',
               'template instances verified: the integer representations and policies listed in coverage.entry_points']
ASSUME_BY_PROPERTY = {}
LEVEL = {}
# properties about the public interface itself: an entry point that no longer compiles is a failing program
INTERFACE = {'C20', 'C23', 'C25'}
