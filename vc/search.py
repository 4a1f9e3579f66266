"""Concrete execution of the compiled wrappers against the specification evaluated over exact integers: replay of solver
models, and the search for a failing input once an obligation has failed.  Runs inside a forked worker."""
import ctypes
import itertools
import math
import random
import re
import signal
import time
from engine import KINDS, flat, unflatten, res_scalars
from spec import *

CT = {'int': ctypes.c_int32, 'long': ctypes.c_int64, 'long long': ctypes.c_int64, 'unsigned int': ctypes.c_uint32,
      'unsigned long': ctypes.c_uint64, 'unsigned long long': ctypes.c_uint64, 'bool': ctypes.c_bool, 'short': ctypes.c_int16,
      'signed char': ctypes.c_int8, 'char': ctypes.c_int8, 'unsigned char': ctypes.c_uint8}


def mine(ll_text):
    """integer constants occurring in the IR (special values a change may test for)"""
    out = set()
    for m in re.finditer(r'^  .*?(?:icmp|add|sub|mul|sdiv|srem|udiv|urem|switch|store|and|or|xor|shl|select|call|    i\d+).*$', ll_text, re.M):
        for x in re.findall(r'(?<![%@\w.#!])-?\d+(?!\w)', m.group(0)):
            v = int(x)
            if abs(v) > 8:
                out.add(v)
    for m in re.finditer(r'^    i\d+ (-?\d+), label', ll_text, re.M):
        out.add(int(m.group(1)))
    return sorted(out, key=abs)[:400]


class Gen:
    def __init__(self, t, rng, consts, models):
        self.t, self.rng = t, rng
        self.fl = flat(t.params)
        self.models = models
        self.consts = consts
        self.bnd = {}
        for n, T in self.fl:
            if T not in ('str', 'zstr', 'intext') and T not in self.bnd:
                lo, hi = tmin(T), tmax(T)
                s = math.isqrt(hi)
                b = {hi, hi - 1, hi // 2, hi // 2 + 1, hi // 3, s, s + 1, s - 1, s // 2, lo, lo + 1, lo + 2, lo // 2}
                for k in range(1, width(T)):
                    b |= {2 ** k, 2 ** k - 1, 2 ** k + 1}
                b |= {-x for x in b}
                self.bnd[T] = [x for x in b if lo <= x <= hi]

    def clip(self, T, v):
        return v if tmin(T) <= v <= tmax(T) else None

    def scalar(self, T, prev):
        r = self.rng
        for _ in range(20):
            k = r.random()
            if k < .30:
                v = r.randint(-6, 6)
            elif k < .40:
                v = r.randint(-60, 60)
            elif k < .55:
                v = r.choice(self.bnd[T])
            elif k < .62 and self.consts:
                v = r.choice(self.consts) * r.choice((1, 1, -1)) + r.choice((0, 0, 0, 1, -1))
            elif k < .80:
                v = r.getrandbits(r.randint(1, width(T) - (1 if signed(T) else 0))) * r.choice((1, -1))
            elif any(isinstance(p, int) for p in prev):
                p = r.choice([p for p in prev if isinstance(p, int)])
                v = r.choice((p, -p, p * r.randint(-5, 5), p + r.choice((-1, 1)), p // r.choice((2, 3, -2)), p * p))
            else:
                v = r.randint(-2, 2)
            if self.clip(T, v) is not None:
                return v
        return r.randint(0, 3)

    def random(self):
        r = self.rng
        out = []
        for name, kind, T in self.t.params:
            if kind == 'F':
                if r.random() < .45:
                    a, b = self.scalar(T, []), self.scalar(T, [])
                    m = r.random()
                    if m < .5:
                        g = r.choice((2, 3, 6, 10, -1, -2, -3, 7, 12))
                    else:
                        hi = tmax(T) // max(1, abs(a), abs(b))
                        g = r.randint(-max(1, hi), max(1, hi))
                    a, b = a * g, b * g
                    if self.clip(T, a) is None or self.clip(T, b) is None:
                        a, b = r.randint(0, 5), r.randint(0, 5)
                    out += [a, b]
                else:
                    out.append(self.scalar(T, out))
                    out.append(self.scalar(T, out))
            elif kind in 'GZY':
                out += KINDS[kind].sample(r, T)
            else:
                for n, T2 in KINDS[kind].flat(name, T):
                    out.append(self.scalar(T2, out))
        return out

    def all(self):
        fl = self.fl
        for m in self.models:
            if all(n + '' in m for n, T in fl):
                yield [m[n] for n, T in fl]
        if self.t.grid:
            for v in self.t.grid():
                yield v
        if not fl:
            yield []
            return
        if any(k in 'GZY' for _, k, _ in self.t.params):
            while True:
                yield self.random()
        small = list(range(-4, 5))
        n = len(fl)
        if n <= 4:
            vals = small if n > 2 else list(range(-40, 41))
            pools = [[v for v in vals if tmin(T) <= v <= tmax(T)] for _, T in fl]
            allv = list(itertools.product(*pools))
            self.rng.shuffle(allv)
            k = 0
            for v in allv:
                yield list(v)
                k += 1
                if k % 2 == 0:
                    yield self.random()
        if n <= 2:
            pools = [sorted(set(self.bnd[T] + [c for c in self.consts if tmin(T) <= c <= tmax(T)] + list(range(0, 8)))) for _, T in fl]
            allv = list(itertools.product(*pools))
            self.rng.shuffle(allv)
            for v in allv:
                yield list(v)
        while True:
            yield self.random()


class Runner:
    def __init__(self, so, t):
        self.t = t
        self.lib = ctypes.CDLL(so)
        self.f = getattr(self.lib, t.name)
        self.fl = flat(t.params)
        self.rs = res_scalars(t.res)
        self.outs = [ctypes.create_string_buffer(4096) if T == 'text' else CT[T]() for n, T in self.rs]
        self.refs = [ctypes.byref(o) for o in self.outs]
        self.f.restype = ctypes.c_int if t.extra.get('catch') else None
        self.f.argtypes = [x for n, T in self.fl for x in ([ctypes.c_void_p, ctypes.c_ulong] if T in ('str', 'zstr', 'intext') else [CT[T]])] + [ctypes.c_void_p] * len(self.rs)
        self.strs = [dict(str=1, intext=1, zstr=2).get(T, 0) for n, T in self.fl]
        if any(self.strs):
            self.page()
        self.S = SpecConc()

    def pre(self, a):
        S = self.S
        self.case = []
        for c in self.t.extra.get('cases') or [None]:
            x = [] if c is None else [c]
            if all(S.eval(th) for label, th in self.t.requires(S, *a, *x)):
                self.case = x
                return True
        return False

    def page(self):
        """one page between two inaccessible ones: sequences end at its end, so that a read past them faults"""
        libc = ctypes.CDLL(None, use_errno=True)
        libc.mmap.restype = ctypes.c_void_p
        libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        b = libc.mmap(None, 3 * 4096, 3, 0x22, -1, 0)
        libc.mprotect(b, 4096, 0)
        libc.mprotect(b + 8192, 4096, 0)
        self.end = b + 8192

    def run(self, vals):
        if any(self.strs):
            out = []
            for v, s in zip(vals, self.strs):
                if s:
                    data = v.encode('latin-1')[:4000] + (b'\0' if s == 2 else b'')
                    ctypes.memset(self.end - 4096, 0, 4096)
                    p = self.end - len(data)
                    ctypes.memmove(p, data, len(data))
                    out += [p, len(data) - s + 1]
                else:
                    out.append(v)
            vals = out
        rc = self.f(*vals, *self.refs)
        return rc, [o.value.decode('latin-1') if isinstance(o.value, bytes) else o.value for o in self.outs]

    def check(self, a, rc, rv):
        """-> None or the failing clause label"""
        S = self.S
        t = self.t
        a = list(a) + self.case
        if rc:
            th = t.extra.get('throws')
            if th is None:
                return 'no exception escapes'
            for cl in th(S, *a):
                if not S.eval(cl[2]):
                    return cl[0]
            return None
        if t.res[0] == 'V':
            cls = t.ensures(S, *a)
        else:
            r = rv[0] if t.res[0] == 'B' else KINDS[t.res[0]].make(rv)
            cls = t.ensures(S, *a, r)
        for cl in cls:
            if not S.eval(cl[2]):
                return cl[0]
        return None


def search(so, t, shared, seconds, seed, consts, models, maxn=None):
    """-> dict(found=None | {...}, tried, admissible)"""
    rng = random.Random(seed)
    R = Runner(so, t)
    g = Gen(t, rng, consts, models)
    t0 = time.time()
    tried = adm = 0
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    seen = []
    for vals in g.all():
        tried += 1
        if tried % 256 == 1:
            signal.setitimer(signal.ITIMER_REAL, 6)
            if time.time() - t0 > seconds:
                break
        if maxn and tried > maxn:
            break
        a = unflatten(t.params, vals)
        if not R.pre(a):
            if not g.fl:
                break
            continue
        adm += 1
        enc = repr(vals).encode()[:4000]
        shared.seek(0)
        shared.write(len(enc).to_bytes(4, 'little') + enc)
        rc, rv = R.run(vals)
        bad = R.check(a, rc, rv)
        if bad is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            return dict(found=dict(input=vals, clause=bad, output=rv), tried=tried, admissible=adm)
        if len(seen) < 2:
            seen.append((vals, rv))
        if not g.fl:
            break
    signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(found=None, tried=tried, admissible=adm, samples=seen)


def replay(so, t, vals, shared):
    R = Runner(so, t)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_REAL, 10)
    a = unflatten(t.params, vals)
    pre = R.pre(a)
    rc, rv = R.run(vals)
    signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(output=rv, clause=R.check(a, rc, rv), pre=pre)
