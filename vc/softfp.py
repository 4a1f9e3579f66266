"""Exact model of IEEE binary formats (and the x87 extended format) over Fractions: rounding to nearest even, as bits."""
from fractions import Fraction

FMT = {  # total bits, significand precision, exponent bits
    'float': (32, 24, 8), 'double': (64, 53, 11), 'x86_fp80': (80, 64, 15)}
KIND = {'float': 'float', 'double': 'double', 'long double': 'x86_fp80'}


def encode(k, x):
    """bits of the nearest value (ties to even); x a Fraction"""
    w, p, eb = FMT[k]
    bias = 2 ** (eb - 1) - 1
    s = 1 if x < 0 else 0
    x = abs(Fraction(x))
    if x == 0:
        return 0
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if x < Fraction(2) ** e:
        e -= 1
    elif x >= Fraction(2) ** (e + 1):
        e += 1
    e = max(e, 1 - bias)
    ulp = Fraction(2) ** (e - p + 1)
    q, r = divmod(x, ulp)
    q = int(q)
    if r > ulp / 2 or (r == ulp / 2 and q % 2):
        q += 1
    if q == 2 ** p:
        q //= 2
        e += 1
    if e > bias:
        E, m = 2 ** eb - 1, (2 ** (p - 1) if k == 'x86_fp80' else 0)
    else:
        E = e + bias if q >= 2 ** (p - 1) else 0
        m = q if k == 'x86_fp80' else q % 2 ** (p - 1)
    return (s << (w - 1)) | (E << (w - 1 - eb)) | m


def fields(k, b):
    w, p, eb = FMT[k]
    mb = w - 1 - eb
    return b >> (w - 1), (b >> mb) % 2 ** eb, b % 2 ** mb


def isnan(k, b):
    w, p, eb = FMT[k]
    s, E, m = fields(k, b)
    return E == 2 ** eb - 1 and (m % 2 ** 63 if k == 'x86_fp80' else m) != 0


def decode(k, b):
    """value of a finite number"""
    w, p, eb = FMT[k]
    s, E, m = fields(k, b)
    if k != 'x86_fp80' and E:
        m += 2 ** (p - 1)
    v = m * Fraction(2) ** (max(E, 1) - (2 ** (eb - 1) - 1) - (p - 1))
    return -v if s else v
