"""Integer polynomials over z3 terms: exact division and cancellation, used by the VC generator to give a
machine division its exact quotient when the dividend is, as a polynomial, a multiple of the divisor.

   P = Q*K (as polynomials) and Q != 0   ==>   P sdiv Q = K, P srem Q = 0.
"""
import z3

_CACHE = {}
_KEEP = []
_UID = [0]


class Defs(dict):
    """definitions of constants (only ever grows)"""

    def __init__(self):
        super().__init__()
        _UID[0] += 1
        self.uid = _UID[0]


def to_poly(t, defs):
    """defs: dict ast-id of a constant -> z3 term it is defined to be equal to (acyclic)."""
    if isinstance(t, int):
        return {(): t} if t else {}
    key = (t.get_id(), defs.uid, len(defs))
    r = _CACHE.get(key)
    if r is not None:
        return r
    r = _to_poly(t, defs)
    _CACHE[key] = r
    _KEEP.append(t)
    return r


def _to_poly(t, defs):
    if z3.is_int_value(t):
        v = t.as_long()
        return {(): v} if v else {}
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in t.children():
            r = add(r, to_poly(c, defs))
        return r
    if k == z3.Z3_OP_SUB:
        cs = t.children()
        r = to_poly(cs[0], defs)
        for c in cs[1:]:
            r = add(r, scale(to_poly(c, defs), -1))
        return r
    if k == z3.Z3_OP_UMINUS:
        return scale(to_poly(t.children()[0], defs), -1)
    if k == z3.Z3_OP_MUL:
        r = {(): 1}
        for c in t.children():
            r = mul(r, to_poly(c, defs))
        return r
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        d = defs.get(t.get_id())
        if d is not None:
            return to_poly(d, defs)
    ATOM[t.get_id()] = t
    return {((t.get_id(), 1),): 1}


ATOM = {}


def add(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mmul(m, n):
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mdiv(m, n):
    d = dict(m)
    for v, e in n:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def _lead(p):
    # any admissible monomial order: total degree then lexicographic on a fixed variable order
    def key(m):
        return (sum(e for _, e in m), tuple((-v, e) for v, e in m))
    vs = sorted({v for m in p for v, _ in m})

    def key2(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(v, 0) for v in vs))
    return max(p, key=key2)


def divide(p, q):
    """K with p = q*K, or None."""
    if not q:
        return None
    if not p:
        return {}
    K = {}
    p = dict(p)
    vs = sorted({v for m in list(p) + list(q) for v, _ in m})

    def key(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(v, 0) for v in vs))
    lq = max(q, key=key)
    cq = q[lq]
    n = 0
    while p:
        n += 1
        if n > 200:
            return None
        lp = max(p, key=key)
        m = mdiv(lp, lq)
        if m is None or p[lp] % cq:
            return None
        c = p[lp] // cq
        K = add(K, {m: c})
        p = add(p, scale(mul({m: 1}, q), -c))
    return K


def content(p):
    """monomial dividing all terms (variables only)"""
    ms = list(p)
    if not ms:
        return ()
    d = dict(ms[0])
    for m in ms[1:]:
        e = dict(m)
        for v in list(d):
            x = min(d[v], e.get(v, 0))
            if x:
                d[v] = x
            else:
                del d[v]
    return tuple(sorted(d.items()))


def common(m, n):
    d, e = dict(m), dict(n)
    return tuple(sorted((v, min(x, e[v])) for v, x in d.items() if v in e))


def to_term(p):
    if not p:
        return z3.IntVal(0)
    ts = []
    for m in sorted(p):
        c = p[m]
        fs = []
        for v, e in m:
            fs += [ATOM[v]] * e
        t = None
        for f in fs:
            t = f if t is None else t * f
        if t is None:
            t = z3.IntVal(c)
        elif c != 1:
            t = z3.IntVal(c) * t
        ts.append(t)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def mono_term(m):
    return to_term({m: 1})


def key(p):
    return tuple(sorted(p.items()))


def norm_sign(p):
    """(sign, p') with p = sign*p' and p' having a positive first coefficient"""
    if not p:
        return 1, p
    m = min(p)
    return (1, p) if p[m] > 0 else (-1, scale(p, -1))
