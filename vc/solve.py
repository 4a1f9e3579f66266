"""Discharging verification conditions: relevance filtering, elimination of gcd-defined constants, and a portfolio of
strategies over z3 (library and 4.8 command line) and cvc5."""
import itertools
import os
import subprocess
import tempfile
import time
import z3
from spec import Fm, VAL, UFNAMES
from sym import syms

UF = UFNAMES
QUANT = [False]     # the unit has quantified facts: instantiate by pattern only


def ids(t):
    return syms(t)


def vals_in(ts):
    """VAL applications occurring in the terms"""
    out = {}
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().name() == 'VAL' and x.num_args() == 2:
                out[i] = x
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return out


FS = {}


def fsyms(t):
    """symbols of a term other than the fixed uninterpreted functions"""
    r = FS.get(t.get_id())
    if r is None:
        r = (t, frozenset(i for i in syms(t) if i not in UF))
        FS[t.get_id()] = r
    return r[1]


STRUF = {'CH', 'DS', 'CNT', 'FIND'}
PURE = {}


def pure(unit, t):
    """speaks of the character sequence only (no digit values, powers or other integers)"""
    r = PURE.get(t.get_id())
    if r is None:
        ok = unit.strsyms
        r = all(i in ok if not isinstance(i, str) else i in STRUF or i[0] == '@' for i in syms(t))
        PURE[t.get_id()] = r
        FS.setdefault(t.get_id(), (t, frozenset(i for i in syms(t) if i not in UF)))
    return r


def index(unit):
    """symbol -> facts about it (kept up to date incrementally; facts are only ever appended or cut back)"""
    ix = unit.findex
    if ix is None:
        ix = unit.findex = ([], {}, [])
    ents, by, pw = ix
    fs = unit.facts
    for k in range(len(ents), len(fs)):
        d, f = fs[k]
        d = frozenset(d)
        ents.append((d, f))
        if 'POW' in d:
            pw.append(k)
        for x in d:
            by.setdefault(x, []).append(k)
    return ix


def select(unit, H, goal, enc, filt_h=True, links=False, levels=None, light=False):
    """hypotheses relevant to the goal: path conditions connected to it, and facts defining symbols in play"""
    get = (lambda f: f.o) if enc == 'o' else (lambda f: f.u)
    hs = [get(h) for h in H]
    g = get(goal)
    if light:
        hs = [h for h in hs if pure(unit, h)]
    ents, by, pw = index(unit)
    rel = set(fsyms(g))
    if not filt_h or not rel:
        for h in hs:
            rel |= fsyms(h)
    chosen_h, chosen_f = set(), set() if light else set(pw)
    todo = [(k, fsyms(h)) for k, h in enumerate(hs)]
    front = set(rel)
    first = True
    rnd = 0
    while (front or first) and (levels is None or rnd < levels):
        rnd += 1
        add = set()
        rest = []
        for k, s in todo:
            if not s or not s.isdisjoint(rel):
                chosen_h.add(k)
                add |= s
            else:
                rest.append((k, s))
        todo = rest
        for x in front:
            for k in by.get(x, ()):
                if k in chosen_f:
                    continue
                d, f = ents[k]
                if 'ALL' in d and len(d & rel) != len(d) - 1:
                    continue
                if light and not pure(unit, get(f)):
                    continue
                chosen_f.add(k)
                add |= fsyms(get(f))
        front = add - rel
        rel |= add
        first = False
    fs = {k: get(ents[k][1]) for k in chosen_f}
    out = [hs[k] for k in sorted(chosen_h)] + [fs[k] for k in sorted(chosen_f)]
    if links:
        done = set()
        for _ in range(2):
            va = vals_in(out + [g])
            for i in va:
                if i not in done:
                    done.add(i)
                    out += unit.links.get(i, [])
    out = [h for h in out if not z3.is_true(h)]
    return out, g


def canonical_order(t):
    return t


def unsat(hs, neg, ms, seed=0, tactic=None):
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set('timeout', int(ms))
    if QUANT[0]:
        s.set('smt.mbqi', False)
    if seed:
        s.set('random_seed', seed)
    s.add(hs)
    s.add(neg)
    return s.check(), s


def subst_pairs(unit):
    """definitions (constant := term over others), fully unfolded"""
    prs = []
    for i, t in unit.defs.items():
        c = [k for k in unit.keep if k.get_id() == i]
        if c:
            prs.append((c[0], t))
    # unfold (acyclic)
    for _ in range(len(prs)):
        new = [(c, z3.substitute(t, *prs)) for c, t in prs]
        if all(z3.eq(a[1], b[1]) for a, b in zip(new, prs)):
            break
        prs = new
    return prs


def unfolded(unit, H, goal, ms, t_end, stats):
    """cross-multiplied integer encoding, definitions substituted, sign symbols split"""
    hs, g = select(unit, H, goal, 'u')
    prs = subst_pairs(unit)
    if prs:
        hs = [z3.simplify(z3.substitute(h, *prs)) for h in hs]
        g = z3.substitute(g, *prs)
    signs = []
    allsy = set(syms(g))
    for h in hs:
        allsy |= set(syms(h))
    for s in unit.signs:
        if s.get_id() in allsy:
            signs.append(s)
    if len(signs) > 4:
        signs = signs[:4]
    for combo in itertools.product((1, -1), repeat=len(signs)):
        sp = [(s, z3.IntVal(v)) for s, v in zip(signs, combo)]
        h2 = [z3.simplify(z3.substitute(h, *sp)) for h in hs] if sp else hs
        g2 = z3.simplify(z3.substitute(g, *sp), som=True) if sp else z3.simplify(g, som=True)
        h2 = [h for h in h2 if not z3.is_true(h)]
        if any(z3.is_false(h) for h in h2) or z3.is_true(g2):
            continue
        left = int((t_end - time.time()) * 1000)
        if left <= 0:
            return z3.unknown
        r, s = unsat(h2, z3.Not(g2), min(ms, left))
        if r != z3.unsat:
            return r
    return z3.unsat


def quick(unit, H, goal, ms):
    hs, g = select(unit, H, goal, 'o', light=unit.strobj is not None and pure(unit, goal.o))
    r, _ = unsat(hs, z3.Not(g), ms)
    return r == z3.unsat


def feasible(unit, H, ms, links=False):
    if not H:
        return True
    last = H[-1]
    light = unit.strobj is not None and pure(unit, last.o)
    hs, g = select(unit, H[:-1], last, 'o', light=light)
    r, _ = unsat(hs, g, ms)
    if r == z3.unsat:
        return False
    if links and not light:
        hs, g = select(unit, H[:-1], last, 'o', links=True)
        r, _ = unsat(hs, g, 2 * ms)
    return r != z3.unsat


def external(hs, neg, secs):
    """second opinion: cvc5 and z3 4.8 on the printed problem"""
    s = z3.Solver()
    s.add(hs)
    s.add(neg)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)\n', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        cmds = [('cvc5', ['cvc5', '--tlimit=%d' % int(secs * 1000), fn]),
                ('z3-4.8', ['z3', '-T:%d' % max(1, int(secs)), fn])]
        ps = [(n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for n, c in cmds]
        end = time.time() + secs + 2
        res = None
        live = list(ps)
        while live and time.time() < end and res is None:
            for n, p in list(live):
                if p.poll() is not None:
                    live.remove((n, p))
                    if p.stdout.read().startswith('unsat'):
                        res = n
            time.sleep(0.02)
        for n, p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
        return res
    finally:
        os.unlink(fn)


def products(t, out, seen):
    if t.get_id() in seen or not z3.is_app(t):
        return
    seen.add(t.get_id())
    if z3.is_mul(t) and z3.is_int(t):
        xs = [x for x in t.children() if not z3.is_int_value(x)]
        if len(xs) == 2:
            out.append(xs)
    for c in t.children():
        products(c, out, seen)


def mono(hs, g):
    """instances of: |a| <= |c| and |b| <= |d| give |ab| <= |cd|, for the products of the goal and of the hypotheses"""
    gp, hp = [], []
    seen = set()
    products(g, gp, seen)
    seen = set()
    for h in hs:
        products(h, hp, seen)
    ab = lambda x: z3.If(x >= 0, x, -x)
    out = []
    for a, b in gp[:6]:
        for c, d in hp[:10]:
            for c1, d1 in ((c, d), (d, c)):
                out.append(z3.Implies(z3.And(ab(a) <= ab(c1), ab(b) <= ab(d1)), z3.And(-ab(c1 * d1) <= a * b, a * b <= ab(c1 * d1))))
    return out


def flatten(ts):
    """maximal applications of uninterpreted functions replaced by constants (a weakening)"""
    apps = {}
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            apps[x.get_id()] = (x, z3.FreshConst(x.sort(), 'app'))
        else:
            st.extend(x.children())
    ps = list(apps.values())
    return [z3.substitute(t, *ps) for t in ts] if ps else list(ts)


def trivial(H, g):
    t = z3.simplify(g)
    return z3.is_true(t)


def discharge(unit, ob, budget=20.0, want_model=True):
    """-> dict(ok, by, time, model)"""
    t0 = time.time()
    end = t0 + budget
    unit = ob.unit or unit
    goal = ob.goal
    if trivial(ob.H, goal.o) or trivial(ob.H, goal.u):
        return dict(ok=True, by='simplifier', time=time.time() - t0)
    model = None

    def left():
        return max(0.0, end - time.time())
    light = unit.strobj is not None and pure(unit, goal.o)
    alg = [('algebra', 1.5)] if unit.strobj is not None and 'VAL' in syms(goal.o) else []
    steps = ([('light', 2.0)] if light else []) + alg + [('direct', 0.3), ('opaque', 0.6), ('links', 1.0), ('mono', 1.5), ('unfold', 2.0), ('opaque', 3.0), ('links', 5.0), ('unfold', 10.0),
             ('union', 6.0), ('external', 10.0)]
    refuted = {}
    for name, sec in steps:
        if left() <= 0.05:
            break
        if refuted.get(name):
            continue
        ms = int(min(sec, left()) * 1000)
        if name == 'direct':
            r, s = unsat([h.o for h in ob.H], z3.Not(goal.o), ms)
            if r == z3.unsat:
                return dict(ok=True, by='z3', strat=name, time=time.time() - t0)
        elif name in ('opaque', 'links', 'light'):
            hs, g = select(unit, ob.H, goal, 'o', links=name == 'links', light=name == 'light')
            r, s = unsat(hs, z3.Not(g), ms)
            if r == z3.unsat:
                return dict(ok=True, by='z3', strat=name, time=time.time() - t0)
            if r == z3.sat:
                refuted[name] = True
                model = s.model()
        elif name == 'algebra':
            hs, g = select(unit, ob.H, goal, 'o', links=True)
            hs = [h for h in hs if not pure(unit, h)]
            for v in vals_in(hs + [g]).values():
                if z3.is_int_value(v.arg(0)):
                    hs.append(z3.Implies(v.arg(1) != 0, v * z3.ToReal(v.arg(1)) == z3.ToReal(v.arg(0))))
            fl = flatten([g] + hs)
            r, s = unsat(fl[1:], z3.Not(fl[0]), ms)
            if r == z3.unsat:
                return dict(ok=True, by='z3', strat=name, time=time.time() - t0)
        elif name == 'mono':
            hs, g = select(unit, ob.H, goal, 'o')
            extra = mono([h.o for h in ob.H], g)
            if not extra:
                continue
            r, s = unsat(hs + extra, z3.Not(g), ms)
            if r == z3.unsat:
                return dict(ok=True, by='z3', strat=name, time=time.time() - t0)
        elif name == 'unfold':
            r = unfolded(unit, ob.H, goal, ms, min(end, time.time() + sec * 3), None)
            if r == z3.unsat:
                return dict(ok=True, by='z3', strat=name, time=time.time() - t0)
            if r == z3.sat:
                refuted[name] = True
        elif name == 'union':
            hs, g = select(unit, ob.H, goal, 'o', links=True)
            hu, gu = select(unit, ob.H, goal, 'u')
            r, s = unsat(hs + hu, z3.Not(z3.Or(g, gu)), ms)
            if r == z3.unsat:
                return dict(ok=True, by='z3', strat=name, time=time.time() - t0)
        elif name == 'external':
            hs, g = select(unit, ob.H, goal, 'o', links=True)
            r = external(hs, z3.Not(g), min(sec, left()))
            if r:
                return dict(ok=True, by=r, strat=name, time=time.time() - t0)
            hu, gu = select(unit, ob.H, goal, 'u')
            prs = subst_pairs(unit)
            if prs:
                hu = [z3.substitute(h, *prs) for h in hu]
                gu = z3.substitute(gu, *prs)
            r = external(hu, z3.Not(gu), min(sec, max(1.0, left())))
            if r:
                return dict(ok=True, by=r, strat=name, time=time.time() - t0)
    # a candidate counterexample for the search
    cand = None
    if want_model and model is not None:
        cand = {}
        for nm, v in unit.inputs:
            x = model.eval(v, model_completion=True)
            try:
                cand[nm] = x.as_long()
            except Exception:
                pass
    return dict(ok=False, by=None, time=time.time() - t0, model=cand)
