"""Loops over character sequences: the modified cells are found by a fixpoint, loop invariants are synthesised (Houdini) from
templates over positions, flags and accumulators, and are then emitted as ordinary obligations (entry, preservation,
termination).  Nothing here is trusted: a wrong invariant fails its obligation."""
import z3
from spec import *
from sym import IV, BV, PV, AG, BN, FV, UNDEF, Outside, sm_, syms
import sym
from strs import MARK, SEP


def successors(blk):
    ins = blk[-1]
    if ins[0] == 'br':
        return [ins[2]]
    if ins[0] == 'condbr':
        return [ins[3], ins[4]]
    if ins[0] == 'switch':
        return [ins[4]] + [l for _, l in ins[5]]
    if ins[0] == 'call' and ins[5] is not None:
        return [ins[5]]
    return []


def info(f):
    """natural loops: header -> blocks"""
    succ = {b: [x for x in successors(f.blocks[b]) if x in f.blocks] for b in f.order}
    state, back = {}, []
    st = [(f.order[0], iter(succ[f.order[0]]))]
    state[f.order[0]] = 1
    while st:
        b, it = st[-1]
        for x in it:
            if state.get(x) == 1:
                back.append((b, x))
            elif x not in state:
                state[x] = 1
                st.append((x, iter(succ[x])))
                break
        else:
            state[b] = 2
            st.pop()
    pred = {}
    for b, xs in succ.items():
        for x in xs:
            pred.setdefault(x, []).append(b)
    out = {}
    for b, h in back:
        body = out.setdefault(h, {h})
        wk = [b]
        while wk:
            x = wk.pop()
            if x not in body:
                body.add(x)
                wk += pred.get(x, [])
    return out


class Ctx:
    pass


class CacheMiss(Exception):
    """an invariant found for a loop in one context does not carry over: start again without reuse"""


def named(st, name):
    r = None
    for o in st.mem:
        if o.name == name and (r is None or o.id > r.id):
            r = o
    return r


def differing(a, b):
    """cells of the objects of b with another value in a"""
    for o, y in b.items():
        x = a.get(o, {})
        if x is y:
            continue
        for off in set(x) | set(y):
            p, q = x.get(off), y.get(off)
            if p is not None and q is not None and p[0] == q[0] and same(p[1], q[1]):
                continue
            yield (o, off), p


def hook(ex, f, fname, st, regs, lab, prev, allocs, visits, depth):
    li = ex.loopinfo.get(fname)
    if li is None:
        li = ex.loopinfo[fname] = info(f)
    body = li.get(lab)
    if body is None:
        return None
    key = (depth, fname, lab)
    c = st.loops.get(key)
    if c is not None and c[1]:
        st.loops[key] = (c[0], False)
        return None
    if prev in body and c is not None:
        back_edge(ex, st, c[0])
        return []
    # decided concretely: unroll
    u = ex.u
    n = len(u.obs)
    if f.blocks[lab][-1][0] == 'condbr':
        ex.symbranch = False
        s = st.fork()
        ex.steps_of(f, fname, [(s, dict(regs), lab, prev, 0, list(allocs), dict(visits))], depth, (lab, {lab}, [], []))
        del u.obs[n:]
        if not ex.symbranch:
            return None
    return establish(ex, f, fname, st, regs, lab, prev, allocs, visits, depth, key, body)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, IV):
        return a.w == b.w and (a.t == b.t if isinstance(a.t, int) and isinstance(b.t, int) else
                               not isinstance(a.t, int) and not isinstance(b.t, int) and a.sg == b.sg and z3.eq(a.t, b.t))
    if isinstance(a, PV):
        return a.o is b.o and z3.eq(I(a.off), I(b.off))
    if isinstance(a, FV):
        return a.k == b.k and z3.eq(I(a.t), I(b.t))
    return False


def boolish(v):
    if not isinstance(v, IV) or v.w != 8:
        return False
    if isinstance(v.t, int):
        return v.t in (0, 1)
    t = v.t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = t.children()[1:]
        return z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0
    return False


def kind_of(vals):
    if any(v is None or v is UNDEF for _, v in vals):
        return None
    if len(set(n for n, _ in vals)) != 1:
        raise Outside('loop: cell of varying size')
    vs = [v for _, v in vals]
    if all(isinstance(v, PV) for v in vs):
        if any(v.o is not vs[0].o for v in vs) or vs[0].o is None:
            raise Outside('loop: pointer to varying objects')
        return ('p', vs[0].o)
    if all(boolish(v) for v in vs):
        return ('b',)
    if all(isinstance(v, IV) for v in vs):
        us = [v.sg for v in vs if not isinstance(v.t, int)]
        return ('i', vs[0].w, 'u' if us and all(x == 'u' for x in us) else 's')
    raise Outside('loop: value kind')


def read(ex, st, cell, kind):
    c = st.mem[cell[0]].get(cell[1])
    if c is None:
        return None
    v = c[1]
    if kind[0] == 'p':
        return I(v.off) if isinstance(v, PV) and v.o is kind[1] else None
    if not isinstance(v, IV):
        return None
    if kind[0] == 'b':
        return ex.tobool(v).t
    ex.cur = st
    return I(ex.un(v) if kind[2] == 'u' else ex.s(v))


def havoc(ex, st, cells):
    for cell, (kind, size, sym_) in cells.items():
        cs = st.mem[cell[0]]
        if kind is None:
            cs.pop(cell[1], None)
        elif kind[0] == 'p':
            cs[cell[1]] = (size, PV(kind[1], sym_))
        elif kind[0] == 'b':
            t = z3.If(sym_, z3.IntVal(1), z3.IntVal(0))
            ex.u.keep.append(t)
            cs[cell[1]] = (size, IV(8, t, 's'))
        else:
            cs[cell[1]] = (size, IV(kind[1], sym_, kind[2]))


def fresh(u, kind, name):
    if kind is None:
        return None
    if kind[0] == 'b':
        u.n += 1
        b = z3.Bool('%s!%d' % (name, u.n))
        u.keep.append(b)
        u.strsyms.add(b.get_id())
        return b
    if kind[0] == 'p':
        p = u.fresh(name)
        u.strsyms.add(p.get_id())
        u.loopsyms.add(p.get_id())
        return p
    lo, hi = (0, 2 ** kind[1] - 1) if kind[2] == 'u' else (-2 ** (kind[1] - 1), 2 ** (kind[1] - 1) - 1)
    x = u.fresh(name, lo, hi)
    u.strsyms.add(x.get_id())
    return x


def snapshot(o, names=None):
    out = {}
    for k, v in vars(o).items():
        if isinstance(v, (dict, set, list)) and k != 'keep':
            out[k] = v.copy()
    return out


def restore(o, snap):
    for k, v in snap.items():
        cur = getattr(o, k)
        if k == 'facts':
            o.findex = None
        if isinstance(cur, list):
            cur[:] = v
        else:
            cur.clear()
            cur.update(v)


def establish(ex, f, fname, st, regs, lab, prev, allocs, visits, depth, key, body):
    u = ex.u
    short = ex.dem.get(fname, fname).split('(')[0][-70:]
    where = short + ' loop ' + lab
    nobs = len(u.obs)

    def one_pass(s):
        arr, exits = [], []
        ex.steps_of(f, fname, [(s, dict(regs), lab, prev, 0, list(allocs), {})], depth, (lab, body, arr, exits))
        del u.obs[nobs:]
        return [a[0] for a in arr]
    # cells the loop modifies
    seen = {}
    cells = {}
    known = ex.loopinfo.get((fname, lab)) if ex.loopcache else None
    reads = []
    if known is not None:
        for nm, off, k, size in known[0]:
            o = named(st, nm)
            if o is None or (k is not None and (o not in st.mem or kind_of([st.mem[o].get(off, (None, None))] * 2) is None)):
                known = None
                break
            cells[(o, off)] = (k, size, fresh(u, k, 'loop'))
    if known is None:
        cells = {}
    for rnd in range(10) if known is None else ():
        s = st.fork()
        havoc(ex, s, cells)
        s0 = s.fork()
        new = False
        u.strs.reads = []
        arr = one_pass(s)
        u.strs.reads, reads = (), u.strs.reads
        for a in arr:
            for (o, off), x in differing(a.mem, s0.mem):
                if (o, off) in cells and cells[(o, off)][0] is None:
                    continue
                l = seen.setdefault((o, off), [st.mem[o].get(off, (None, None))])
                l.append(x if x is not None else (None, None))
                k = kind_of(l)
                size = l[0][0]
                if (o, off) not in cells or cells[(o, off)][0] != k:
                    cells[(o, off)] = (k, size, fresh(u, k, 'loop'))
                    new = True
        if not new:
            break
    else:
        if known is None:
            raise Outside('loop: modified cells of ' + short)
    if known is not None and not any(e[0] is not None and e[0][0] == 'p' for e in cells.values()):
        s = st.fork()
        havoc(ex, s, cells)
        u.strs.reads = []
        one_pass(s)
        u.strs.reads, reads = (), u.strs.reads
    live = {c: e for c, e in cells.items() if e[0] is not None}
    init = {c: read(ex, st, c, e[0]) for c, e in live.items()}
    hav = {c: e[2] for c, e in live.items()}
    bases = starts(live, hav, reads)
    u.loopsyms |= {hav[c].get_id() for c, _ in bases}
    cands = candidates(ex, st, live, init, bases) if u.strobj is not None else []
    if u.strobj is None or not reads:
        cands = numeric(ex, st, live, init) + cands
    snap, ssnap = snapshot(u), snapshot(u.strs)
    keep = []
    if known is not None:
        if known[1] == len(cands) and known[4] == [cd.label for cd in cands]:
            keep = [cands[i] for i in known[2]]
            if not all(ex.prove(st, cd.f(init), 1000) for cd in keep):
                raise CacheMiss()
        else:
            raise CacheMiss()
    # what held for this loop in an earlier context is tried first; a proof that then fails is redone with everything
    prior = ex.loopinfo.get(('labels', fname, lab)) if ex.loopcache and known is None else None
    if prior is not None:
        cands = [cd for cd in cands if cd.label in prior]
        u.filtered = True
    for cd in cands if known is None else ():
        g = cd.f(init)
        if g is not None and ex.prove(st, g, 1000):
            keep.append(cd)
    while known is None:
        s = st.fork()
        havoc(ex, s, cells)
        for cd in keep:
            ex.assume(s, cd.f(hav))
        arr = one_pass(s)
        vals = [{c: read(ex, a, c, e[0]) for c, e in live.items()} for a in arr]
        good = []
        for cd in keep:
            ok = True
            for a, v in zip(arr, vals):
                if any(x is None for x in v.values()):
                    ok = False
                    break
                if not ex.prove(a, cd.f(v), 1500 if u.strobj is not None else 5000):
                    ok = False
                    break
            if ok:
                good.append(cd)
        if len(good) == len(keep):
            break
        keep = good
    var = None
    if known is not None:
        var = measures(ex, st, live, init, bases)[known[3]]
    else:
        for n, m in enumerate(measures(ex, st, live, init, bases)):
            if all(ex.prove(a, z3.And(m(hav) >= 0, m(v) < m(hav)), 1000) for a, v in zip(arr, vals)):
                var = m
                break
        if prior is None and arr:
            ex.loopinfo[('labels', fname, lab)] = {cd.label for cd in keep}
        if var is not None and prior is None and not any(e[0] is not None and e[0][0] == 'p' and e[0][1] is not u.strobj for e in cells.values()):
            ex.loopinfo[(fname, lab)] = ([(o.name, off, e[0], e[1]) for (o, off), e in cells.items()], len(cands),
                                         [i for i, cd in enumerate(cands) if any(cd is x for x in keep)], n, [cd.label for cd in cands])
    restore(u, snap)
    restore(u.strs, ssnap)
    del u.obs[nobs:]
    # drop invariants implied by the others is not attempted; all are obligations
    for cd in keep:
        u.oblige('loop invariant on entry', where, st.H, cd.f(init), cd.label)
    c = Ctx()
    c.keep, c.live, c.var, c.where, c.reused, c.cells = keep, live, var, where, known is not None, cells
    eqs = {}
    for cd in keep:
        if cd.eq is not None and cd.eq[0] not in eqs:
            eqs[cd.eq[0]] = cd.eq[1]
    for cell, tm in eqs.items():
        k, size, sy = cells[cell]
        hav[cell] = tm(hav)
        cells[cell] = (k, size, hav[cell])
    c.hav = hav
    s = st.fork()
    havoc(ex, s, cells)
    for cd in keep:
        if cd.eq is None or cd.eq[0] not in eqs or cd.eq[1] is not eqs[cd.eq[0]]:
            ex.assume(s, cd.f(hav))
        else:
            k = cells[cd.eq[0]][0]
            t = hav[cd.eq[0]]
            lo, hi = (0, 2 ** k[1] - 1) if k[2] == 'u' else (-2 ** (k[1] - 1), 2 ** (k[1] - 1) - 1)
            ex.assume(s, z3.And(lo <= t, t <= hi))
    c.head = {o: dict(cs) for o, cs in s.mem.items()}
    s.loops[key] = (c, True)
    return [(s, regs, lab, prev, 0, allocs, dict(visits))]


def back_edge(ex, st, c):
    u = ex.u
    v = {cell: read(ex, st, cell, e[0]) for cell, e in c.live.items()}
    if any(x is None for x in v.values()):
        u.oblige('loop invariant preserved', c.where, st.H, z3.BoolVal(False), 'cells initialised')
        return
    for cell, _ in differing(st.mem, c.head):
        if cell not in c.cells:
            if c.reused:
                raise CacheMiss()
            u.oblige('loop invariant preserved', c.where, st.H, z3.BoolVal(False), 'frame: %s + %s' % cell)
    for cd in c.keep:
        if c.reused and not ex.prove(st, cd.f(v), 1000):
            raise CacheMiss()
        u.oblige('loop invariant preserved', c.where, st.H, cd.f(v), cd.label)
    if c.var is None:
        u.oblige('termination', c.where, st.H, z3.BoolVal(False), 'no measure found for the loop')
    else:
        u.oblige('termination', c.where, st.H, z3.And(c.var(c.hav) >= 0, c.var(v) < c.var(c.hav)), 'loop measure decreases')


def numeric(ex, st, live, init):
    """counters between their start and the values at hand, and powers accumulated up, down or by squaring"""
    u = ex.u
    ints = [c for c, e in live.items() if e[0][0] == 'i' and e[0][1] >= 16]
    ks = {}
    for ob, cs in st.mem.items():
        for off, (n, v) in cs.items():
            if (ob, off) not in live and isinstance(v, IV) and v.w >= 16 and not isinstance(v.t, int):
                ex.cur = st
                ks.setdefault(I(v.t).get_id(), I(v.t))
    for c in ints:
        if not z3.is_int_value(I(init[c])):
            ks.setdefault(I(init[c]).get_id(), I(init[c]))
    ks = list(ks.values())[:5]
    out = []
    for c in ints:
        out.append(Cand('not negative', lambda v, c=c: v[c] >= 0))
        out.append(Cand('not below its start', lambda v, c=c: v[c] >= init[c]))
        out.append(Cand('not above its start', lambda v, c=c: v[c] <= init[c]))
        for k in ks:
            out.append(Cand('bounded above', lambda v, c=c, k=k: v[c] <= k))
    if len(ints) > 4:
        return out
    for r in ints:
        for i in ints:
            if i == r:
                continue
            for b in ks:
                up = lambda v, b=b, i=i: u.pow(b, sm_(v[i] - init[i]))
                dn = lambda v, b=b, i=i: u.pow(b, sm_(init[i] - v[i]))
                out.append(Cand('power so far (counting up)', lambda v, r=r, up=up: v[r] == up(v), (r, up)))
                out.append(Cand('power so far (counting down)', lambda v, r=r, dn=dn: v[r] == dn(v), (r, dn)))
            for s in ints:
                if s in (r, i) or not (isinstance(init[r], int) and init[r] == 1 or z3.is_int_value(I(init[r])) and I(init[r]).as_long() == 1):
                    continue
                full = lambda s=s, i=i: u.pow(init[s], init[i])
                out.append(Cand('power so far times the rest', lambda v, r=r, s=s, i=i, full=full:
                                v[r] * u.pow(v[s], v[i]) == full()))
                out.append(Cand('zero only with a zero base', lambda v, r=r, s=s: z3.Implies(v[r] == 0, init[s] == 0)))
                out.append(Cand('base zero only from zero', lambda v, s=s: (v[s] == 0) == (I(init[s]) == 0)))
    return out


class Cand:
    def __init__(self, label, f, eq=None):
        self.label, self.f, self.eq = label, f, eq


def anchors(ex, st, live):
    """positions of the sequence held in cells the loop leaves alone, and the ends of views starting there"""
    o = ex.u.strobj
    out = {}
    if o is None:
        return []

    def add(t):
        t = I(sm_(t))
        out[t.get_id()] = t
    add(o.extra[0])
    add(o.extra[1])
    for ob, cs in st.mem.items():
        for off, (n, v) in cs.items():
            if (ob, off) in live or not isinstance(v, PV) or v.o is not o:
                continue
            add(v.off)
            w = cs.get(off - 8)
            if w is not None and (ob, off - 8) not in live and isinstance(w[1], IV) and w[1].w == 64:
                ex.cur = st
                add(v.off + ex.un(w[1]))
    return list(out.values())[:8]


def starts(live, hav, reads):
    """integer cells used as offsets of the characters read, with the position they are relative to"""
    out = []
    fresh_ = {e[2].get_id() for e in live.values()}
    for c, e in live.items():
        if e[0][0] != 'i':
            continue
        got = set()
        for r in reads:
            d = I(sm_(r - hav[c]))
            if not (syms(d) & fresh_) and d.get_id() not in got:
                got.add(d.get_id())
                out.append((c, d))
    return out


def positions(ex, st, live, init, bases=()):
    """[(label, anchor, function of the valuation)]"""
    o = ex.u.strobj
    out = []
    for c, e in live.items():
        if e[0][0] == 'p' and e[0][1] is o:
            out.append(('cursor', init[c], (lambda c: lambda v: v[c])(c), c))
    if not out:
        qs = anchors(ex, st, live)
        for c, q in bases:
            out.append(('index', sm_(q + init[c]), (lambda c, q: lambda v: q + v[c])(c, q), c))
        ws = [e[0][1] for e in live.values() if e[0][0] == 'i' and e[0][1] >= 32]
        for c, e in live.items():
            if e[0][0] == 'i' and not bases and ws and e[0][1] == max(ws):
                for q in qs[:3]:
                    out.append(('index', sm_(q + init[c]), (lambda c, q: lambda v: q + v[c])(c, q), c))
    return out


def candidates(ex, st, live, init, bases=()):
    T = ex.u.strs
    out = []
    qs = anchors(ex, st, live)
    ps = positions(ex, st, live, init, bases)
    bools = [c for c, e in live.items() if e[0][0] == 'b']
    ints = [c for c, e in live.items() if e[0][0] == 'i']
    o = ex.u.strobj
    for nm, a, P, pc in ps:
        a = I(a)
        out.append(Cand('%s not before its start' % nm, lambda v, P=P, a=a: P(v) >= a))
        for q in qs:
            if not z3.eq(q, a):
                out.append(Cand('%s bounded below' % nm, lambda v, P=P, q=q: P(v) >= q))
            out.append(Cand('%s bounded above' % nm, lambda v, P=P, q=q: P(v) <= q))
        for b in (10, 16):
            ds = lambda v, P=P, a=a, b=b: T.ds(b, a, P(v))
            sep = lambda v, P=P, a=a, b=b: z3.Or(P(v) == a, z3.And(T.ch(P(v) - 1) == SEP, T.ds(b, a, P(v) - 1)))
            for B in bools:
                out.append(Cand('flag: digit sequence so far (base %d)' % b, lambda v, B=B, ds=ds: v[B] == ds(v)))
                out.append(Cand('flag down: empty or after a separator (base %d)' % b, lambda v, B=B, sep=sep: z3.Implies(z3.Not(v[B]), sep(v))))
                out.append(Cand('flag down: digit sequence so far (base %d)' % b, lambda v, B=B, ds=ds: z3.Not(v[B]) == ds(v)))
                out.append(Cand('flag: empty or after a separator (base %d)' % b, lambda v, B=B, sep=sep: z3.Implies(v[B], sep(v))))
            out.append(Cand('digits and separators so far (base %d)' % b, lambda v, ds=ds, sep=sep: z3.Or(ds(v), sep(v))))
            for c in ints:
                if c == pc:
                    continue
                tm = lambda v, P=P, a=a, b=b: T.num(b, a, P(v))
                out.append(Cand('digit value so far (base %d)' % b, lambda v, c=c, tm=tm: v[c] == tm(v), (c, tm)))
        for c in ints:
            if c == pc:
                continue
            tm = lambda v, P=P, a=a: T.cnt(a, P(v))
            out.append(Cand('number of digits so far', lambda v, c=c, tm=tm: v[c] == tm(v), (c, tm)))
            w = live[c][0][1]
            if w < 64:
                out.append(Cand('number of digits so far, while it fits', lambda v, c=c, tm=tm, w=w: z3.Implies(tm(v) < 2 ** (w - 1), v[c] == tm(v))))
        if nm == 'cursor':
            for c in ints:
                if live[c][0][1] == 64:
                    q = sm_(a + I(init[c]))
                    tm = lambda v, P=P, q=q: q - P(v)
                    out.append(Cand('length of the rest', lambda v, c=c, tm=tm: v[c] == tm(v), (c, tm)))
                    out.append(Cand('rest ends where it did', lambda v, P=P, q=q: P(v) <= q))
        for ch in (46, 101, 69, 112, 80):
            out.append(Cand('no %r so far' % chr(ch), lambda v, P=P, a=a, ch=ch: P(v) <= T.find(ch, a, o.extra[1])))
    for c in ints:
        out.append(Cand('not below its start', lambda v, c=c: v[c] >= init[c]))
    return out


def measures(ex, st, live, init, bases=()):
    o = ex.u.strobj
    out = []
    qs = anchors(ex, st, live)
    for nm, a, P, pc in positions(ex, st, live, init, bases):
        for q in qs:
            out.append(lambda v, P=P, q=q: q - P(v))
        for q in qs:
            out.append(lambda v, P=P, q=q: P(v) - q)
        if nm == 'cursor':
            for c, e in live.items():
                if e[0][0] == 'i' and e[0][1] == 64:
                    out.append(lambda v, P=P, q=sm_(I(a) + I(init[c])): q - P(v))
    for c, e in live.items():
        if e[0][0] == 'i':
            out.append(lambda v, c=c: v[c])
    if o is None:
        for c, e in live.items():
            if e[0][0] == 'i':
                for ob, cs in st.mem.items():
                    for off, (n, w) in cs.items():
                        if (ob, off) not in live and isinstance(w, IV) and not isinstance(w.t, int):
                            out.append(lambda v, c=c, w=I(w.t): w - v[c])
                for c2, e2 in live.items():
                    if c2 != c and e2[0][0] == 'i':
                        out.append(lambda v, c=c, c2=c2: sm_(I(init[c2]) - v[c]))
    return out
