"""Verification of one function under contract: build the symbolic entry state, execute, emit postcondition obligations,
discharge."""
import time
import traceback
import loops
import z3
import solve
import streams
import strs
from ir import IRError, PTR, ity
from spec import *
from sym import *


class Target:
    """a public entry point: wrapper source text (compiled into the driver) + contract over its flattened parameters.
    params: [(name, kind, T)]; kinds: F fraction, R integer, M mixed number, ...
    res: (kind, T)"""

    def __init__(self, name, title, cpp, params, res, requires, ensures, props=(), grid=None, extra=None):
        self.name, self.title, self.cpp = name, title, cpp
        self.params, self.res = params, res
        self.requires, self.ensures = requires, ensures
        self.props = props
        self.grid = grid
        self.key = ('target', name)
        self.extra = extra or {}


def flat(params):
    """[(scalar name, T)] of a parameter list"""
    out = []
    for name, kind, T in params:
        out += KINDS[kind].flat(name, T)
    return out


class KF:
    @staticmethod
    def flat(n, T):
        return [(n + '_n', T), (n + '_d', T)]

    @staticmethod
    def make(vs):
        return F(vs[0], vs[1])


class KR:
    @staticmethod
    def flat(n, T):
        return [(n, T)]

    @staticmethod
    def make(vs):
        return vs[0]


class KM:
    """mixed number; T = (whole type, fraction type)"""
    @staticmethod
    def flat(n, T):
        return [(n + '_w', T[0]), (n + '_n', T[1]), (n + '_d', T[1])]

    @staticmethod
    def make(vs):
        return M(vs[0], F(vs[1], vs[2]))


class KL:
    """list of scalars; T = list of (name, type)"""
    @staticmethod
    def flat(n, T):
        return [(n + '_' + a, t) for a, t in T]

    @staticmethod
    def make(vs):
        return list(vs)


class KG:
    """character sequence"""
    @staticmethod
    def flat(n, T):
        return [(n, 'str')]

    @staticmethod
    def make(vs):
        return vs[0]

    @staticmethod
    def sample(r, T):
        return [strs.sample(r)]


class KZ(KG):
    """NUL-terminated character sequence"""
    @staticmethod
    def flat(n, T):
        return [(n, 'zstr')]


class KY(KG):
    """input of unknown content"""
    @staticmethod
    def flat(n, T):
        return [(n, 'intext')]

    @staticmethod
    def sample(r, T):
        return [streams.sample(r)]


KINDS = {'Y': KY, 'Z': KZ, 'G': KG, 'F': KF, 'R': KR, 'M': KM, 'L': KL, 'B': KR, 'E': KR}


def unflatten(params, vals):
    out = []
    i = 0
    for name, kind, T in params:
        k = len(KINDS[kind].flat(name, T))
        out.append(KINDS[kind].make(vals[i:i + k]))
        i += k
    return out


def res_scalars(res):
    kind, T = res
    if kind == 'V':
        return []
    if kind == 'B':
        return [('res', 'bool')]
    return KINDS[kind].flat('res', T)


def signature(t):
    """C declaration parameters of the wrapper"""
    ps = ['char const* %s, unsigned long %s_len' % (n, n) if T in ('str', 'zstr', 'intext') else '%s %s' % (T, n) for n, T in flat(t.params)]
    ps += ['%s* o_%s' % ('char' if T == 'text' else T, n) for n, T in res_scalars(t.res)]
    return '%s(%s)' % (t.name, ', '.join(ps))


def sym_str(u, ex, st, name, based=False, nul=False):
    """a character sequence of any length; based: starting anywhere in a larger one; nul: followed by a NUL, and with none inside"""
    lo = u.fresh(name + '_begin', 0, 2 ** 61) if based else z3.IntVal(0)
    n = u.fresh(name + '_len', 0, 2 ** 61)
    u.strsyms |= {n.get_id(), lo.get_id()}
    hi = sm_(lo + n)
    o = ex.alloc(st, None, 'str', name, (lo, sm_(hi + 1) if nul else hi))
    o.nul = hi if nul else None
    u.strobj = o
    solve.QUANT[0] = True
    return Str(o, lo, hi), n


def sym_param(u, name, T):
    v = u.fresh(name, tmin(T), tmax(T))
    u.inputs.append((name, v))
    return v


def post_obligations(u, ex, st, where, clauses):
    for cl in clauses:
        label, props, th = cl
        u.oblige('postcondition', where, st.H, u.S.clause(th), label, props)


def run_target(mod, dem, reg, t, reuse=True):
    try:
        return run_target1(mod, dem, reg, t, reuse)
    except loops.CacheMiss:
        return run_target1(mod, dem, reg, t, False)


def run_target1(mod, dem, reg, t, reuse):
    us = []
    cases = t.extra.get('cases') or [None]
    for i, case in enumerate(cases):
        u = Unit(t.title if len(cases) == 1 else '%s, case %d' % (t.title, i + 1), None)
        run_target_case(mod, dem, reg, t, reuse, u, case)
        us.append(u)
    return merge(us)


def merge(us):
    """the units of a case split, presented as one; every obligation keeps the unit it belongs to"""
    m = us[0]
    m.pres = [(u, u.pre) for u in us]
    for u in us[1:]:
        m.obs += u.obs
        m.callees.update(u.callees)
        m.inlined |= u.inlined
        m.trusted |= u.trusted
        m.rets += u.rets
        m.filtered = getattr(m, 'filtered', False) or getattr(u, 'filtered', False)
    return m


def run_target_case(mod, dem, reg, t, reuse, u, case):
    ex = Exec(mod, reg, u, dem)
    ex.loopcache = reuse
    ex.noct = t.extra.get('inline')
    ex.flinks = t.extra.get('flinks', False)
    st = St()
    vals, args = [], []
    for n, T in flat(t.params):
        if T in ('str', 'zstr'):
            x, ln = sym_str(u, ex, st, n, nul=T == 'zstr')
            vals.append(x)
            args += [PV(x.o, 0), IV(64, ln, 'u')]
            continue
        if T == 'intext':
            streams.stream(ex, st, 0)
            vals.append(streams.inputs(u))
            args += [PV(None, 0), IV(64, 0)]
            continue
        v = sym_param(u, n, T)
        vals.append(v)
        args.append(IV(width(T) if T != 'bool' else 8, v, 's' if signed(T) else 'u'))
    a = unflatten(t.params, vals) + ([case] if case is not None else [])
    for label, th in t.requires(u.S, *a):
        ex.assume(st, u.S.clause(th))
    u.pre = list(st.H)
    outs = []
    for n, T in res_scalars(t.res):
        o = ex.alloc(st, 0 if T == 'text' else max(1, width(T) // 8), 'out', 'o_' + n)
        outs.append((o, T))
        args.append(PV(o, 0))
    fname = '@' + t.name
    if fname not in mod.funcs:
        raise Outside('wrapper not found')
    f = mod.funcs[fname]
    for k, (nm, ty, at) in enumerate(f.params):
        if ty == ity(1) and isinstance(args[k], IV):
            args[k] = ex.tobool(args[k])
    res = ex.run(st, fname, args)
    for kind, s2, v in res:
        if kind == 'throw':
            u.rets += 1
            th = t.extra.get('throws')
            if th is None:
                u.oblige('exception', 'exit', s2.H, z3.BoolVal(False), 'no exception escapes', t.props)
            else:
                for cl in th(u.S, *a):
                    u.oblige('exceptional postcondition', 'throw', s2.H, u.S.clause(cl[2]), cl[0], cl[1])
            continue
        u.rets += 1
        rv = []
        bad = False
        for o, T in outs:
            if T == 'text':
                rv.append(streams.ghost(s2, u.stream) if getattr(u, 'stream', None) is not None else streams.Ghost())
                continue
            c = s2.mem[o].get(0)
            if c is None or not isinstance(c[1], (IV, BV)):
                u.oblige('result written', 'exit', s2.H, z3.BoolVal(False), o.name, t.props)
                bad = True
                break
            x = c[1]
            if T == 'bool':
                b = ex.tobool(x).t
                rv.append(b)
            else:
                y = ex.as_T(x, T)
                rv.append(I(y))
        if bad:
            continue
        if t.res[0] == 'V':
            post_obligations(u, ex, s2, 'exit', t.ensures(u.S, *a))
        else:
            r = rv[0] if t.res[0] == 'B' else KINDS[t.res[0]].make(rv)
            post_obligations(u, ex, s2, 'exit', t.ensures(u.S, *a, r))


def run_internal(mod, dem, reg, fname, ct):
    """verify the body of an IR function against its contract"""
    us = []
    for case in ct.cases or [{}]:
        u = Unit(ct.title + (' (%s)' % ', '.join('%s = %s' % x for x in case.items()) if case else ''), ct.key)
        run_case(mod, dem, reg, fname, ct, u, case)
        us.append(u)
    return merge(us)


def run_case(mod, dem, reg, fname, ct, u, case):
    ex = Exec(mod, reg, u, dem)
    ex.loopcache = False
    st = St()
    f = mod.funcs[fname]
    fl = []
    for name, kind, T in ct.params:
        fl += [(n, t) for n, t in KINDS[kind].flat(name, T)]
    vals = []
    for n, T in fl:
        if T == 'str':
            x, ln = sym_str(u, ex, st, n, True)
            vals.append(x)
        elif n in case:
            vals.append(I(case[n]))
        else:
            vals.append(sym_param(u, n, T))
    a = unflatten(ct.params, vals)
    args = []
    i = 0
    ps = list(f.params)
    sret = None
    if ps and 'sret' in ps[0][2]:
        kind, T = ct.res
        sret = ex.alloc(st, sum(width(t) // 8 for n, t in res_scalars(ct.res)), 'out', 'sret')
        args.append(PV(sret, 0))
        ps = ps[1:]
    pi = 0
    if ct.this:
        lay = mixed_layout(ct.res[1])
        sret = ex.alloc(st, lay[-1][0] + width(lay[-1][1]) // 8, 'out', 'this')
        args.append(PV(sret, 0))
        ps = ps[1:]
    for (name, kind, T), av in zip(ct.params, a):
        nm, ty, at = ps[pi]
        r = mod.resolve(ty)
        if kind == 'F':
            w = width(T)
            sg = 's' if signed(T) else 'u'
            n, d = IV(w, av.n, sg), IV(w, av.d, sg)
            if r[0] == 'ptr':
                o = ex.alloc(st, 2 * w // 8, 'param', name)
                st.mem[o] = {0: (w // 8, n), w // 8: (w // 8, d)}
                args.append(PV(o, 0))
            elif r[0] == 'int' and r[1] == 2 * w:
                args.append(BN(2 * w // 8, [(0, w // 8, n), (w // 8, w // 8, d)]))
            elif r[0] == 'int' and r[1] == w:
                args += [n, d]
                pi += 1
            else:
                raise Outside('parameter passing of ' + name)
        elif kind == 'G':
            ln = IV(64, sm_(av.hi - av.lo), 'u')
            if r[0] == 'ptr':
                o = ex.alloc(st, 16, 'param', name)
                st.mem[o] = {0: (8, ln), 8: (8, PV(av.o, av.lo))}
                args.append(PV(o, 0))
            else:
                args += [ln, PV(av.o, av.lo)]
                pi += 1
        elif kind in ('R', 'E'):
            w = width(T)
            x = IV(w, simp(av), 's' if signed(T) else 'u')
            if r[0] == 'ptr':
                o = ex.alloc(st, w // 8, 'param', name)
                st.mem[o] = {0: (w // 8, x)}
                args.append(PV(o, 0))
            else:
                args.append(x)
        else:
            raise Outside('parameter kind ' + kind)
        pi += 1
    if pi != len(ps):
        raise Outside('parameter count')
    for label, th in ct.requires(u.S, *a):
        ex.assume(st, u.S.clause(th))
    u.pre = list(st.H)
    if ct.measure:
        u.entry_measure = ct.measure(u.S, *a)
    ex.inside_key = 1
    ex.noct = ct.inline
    ex.flinks = ct.flinks
    res = []
    if u.strobj is not None:
        # the empty sequence may also be passed as a null pointer
        s2 = st.fork()
        k = [i for i, x in enumerate(args) if isinstance(x, PV) and x.o is u.strobj]
        if k:
            ex.assume(s2, u.strobj.extra[0] == u.strobj.extra[1])
            if ex.feasible(s2):
                b = list(args)
                b[k[0]], b[k[0] - 1] = PV(None, 0), IV(64, 0)
                res = ex.run(s2, fname, b)
    res += ex.run(st, fname, args)
    for kind, s2, v in res:
        u.rets += 1
        if kind == 'throw':
            u.oblige('exception', 'exit', s2.H, z3.BoolVal(False), 'no exception escapes')
            continue
        kind, T = ct.res
        if kind == 'M':
            cs = [s2.mem[sret].get(off) for off, X, _ in mixed_layout(T)]
            if None in cs:
                u.oblige('result written', 'exit', s2.H, z3.BoolVal(False))
                continue
            v = [I(ex.as_T(c[1], X)) for c, (off, X, _) in zip(cs, mixed_layout(T))]
            r = M(v[0], F(v[1], v[2]))
        elif kind == 'F':
            w = width(T)
            if sret is not None:
                c0, c1 = s2.mem[sret].get(0), s2.mem[sret].get(w // 8)
                if c0 is None or c1 is None:
                    u.oblige('result written', 'exit', s2.H, z3.BoolVal(False))
                    continue
                r = F(I(ex.as_T(c0[1], T)), I(ex.as_T(c1[1], T)))
            elif isinstance(v, BN):
                r = F(I(ex.as_T(v.cells[0][2], T)), I(ex.as_T(v.cells[1][2], T)))
            elif isinstance(v, AG):
                r = F(I(ex.as_T(v.xs[0], T)), I(ex.as_T(v.xs[1], T)))
            elif isinstance(v, IV) and isinstance(v.t, int) and v.w == 2 * w:
                x = v.t % 2 ** (2 * w)
                lo, hi = x % 2 ** w, x >> w
                r = F(I(wrap_s(lo, w)), I(wrap_s(hi, w)))
            else:
                raise Outside('result passing %r' % (v,))
        elif kind == 'B':
            r = ex.tobool(v).t
        elif kind == 'R':
            r = I(ex.as_T(v, T))
        else:
            raise Outside('result kind')
        post_obligations(u, ex, s2, 'exit', ct.ensures(u.S, *a, r))
    return u


def verify(mod, dem, reg, job, budget=20.0, total=240.0):
    solve.QUANT[0] = False
    return verify_(mod, dem, reg, job, budget, total)


def verify_again(mod, dem, reg, job, budget=20.0, total=240.0):
    """a second chance for a failed unit: with three times the time, then with the bodies of the operations it calls in place of their
    contracts (a contract states less than the body does)"""
    r = verify(mod, dem, reg, job, 3 * budget, 3 * total)
    if r['error'] is None and not all(o['ok'] for o in r['obs']):
        reg.inline_ops = True
        r2 = verify(mod, dem, reg, job, budget, total)
        reg.inline_ops = False
        if r2['error'] is None and all(o['ok'] for o in r2['obs']):
            return r2
    return r


def discharge(res, u, t0, budget, total):
    for ob in u.obs:
        left = total - (time.time() - t0)
        r = solve.discharge(u, ob, min(budget, left) if left > 0.5 else 0.5)
        res['obs'].append(dict(name=ob.name, kind=ob.kind, label=ob.label, props=list(ob.props), ok=r['ok'], by=r.get('by'),
                               strat=r.get('strat'), time=round(r['time'], 3)))
        if not r['ok'] and r.get('model'):
            res['models'].append(r['model'])


def verify_(mod, dem, reg, job, budget, total):
    """job: ('target', Target) or ('fn', fname, contract).  -> result dict (picklable)"""
    t0 = time.time()
    res = dict(title=job[1].title if job[0] == 'target' else job[2].title, obs=[], callees=[], inlined=[], trusted=[], error=None,
               key=job[1].key if job[0] == 'target' else job[2].key, models=[])
    u = None
    try:
        if job[0] == 'target':
            u = run_target(mod, dem, reg, job[1])
        else:
            u = run_internal(mod, dem, reg, job[1], job[2])
    except (Outside, IRError, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception, RecursionError) as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()[-1500:]
    res['exec_time'] = time.time() - t0
    if u is not None:
        res['callees'] = [(k, fn) for k, (c, fn) in u.callees.items()]
        res['inlined'] = sorted(u.inlined)
        res['trusted'] = sorted(u.trusted)
        res['rets'] = u.rets
        if u.rets == 0 and not u.obs:
            res['error'] = 'vacuous: no path returns'
        discharge(res, u, t0, budget, total)
        if getattr(u, 'filtered', False) and not all(o['ok'] for o in res['obs']) and time.time() - t0 < total:
            # loop invariants were sought among those that held in an earlier context: seek among all of them
            res2 = dict(res, obs=[], models=[])
            try:
                u2 = run_target(mod, dem, reg, job[1], False)
                discharge(res2, u2, t0, budget, 2 * total)
                if all(o['ok'] for o in res2['obs']) or len(res2['obs']) > len(res['obs']):
                    res, u = res2, u2
            except (Outside, IRError, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception, RecursionError):
                pass
        # vacuity: the precondition itself must be satisfiable (not refutable)
        if u.obs:
            try:
                for u1, H in u.pres:
                    s = z3.Solver()
                    s.set('timeout', 300)
                    hs, g = solve.select(u1, H, Fm(z3.BoolVal(False)), 'o', filt_h=False)
                    s.add(hs)
                    if s.check() == z3.unsat:
                        res['error'] = 'vacuous precondition'
            except z3.Z3Exception:
                pass
    res['time'] = round(time.time() - t0, 3)
    return res
