"""Rounding errors.

In rounding mode each value is an exact symbolic real together with a bound of
the distance between the value that the floating-point code computes and the
exact one.  Operations on symbolic values add half a unit in the last place
relative to the largest magnitude of the result over the input box; operations
on constants are carried out in IEEE arithmetic.  Lower bounds of denominators
and radicands are decided by the solver."""
import struct
from fractions import Fraction

import z3

import core
import real
import trans
from core import E, UndefT
from real import RF

ON = False
LOWER = {}
HUGE = Fraction(1 << 40)        # error where no bound is known: left to the replay


class NoBound(Exception):
    pass


def err(x):
    return x.e if isinstance(x, RF) else 0


def bound(x):
    """upper bound of |x| over the input box"""
    if not isinstance(x, RF):
        return abs(Fraction(x))
    b = E.pbound(x.n)
    if b is None:
        raise NoBound
    b /= x.dc
    for i, e in x.d.items():
        b /= lower(RF(real.FACTORS[i])) ** e
    return b


def lower(x):
    """a power of four below |x|"""
    if not isinstance(x, RF):
        x = abs(Fraction(x))
        t = Fraction(1)
        while t > x:
            t /= 4
        return t
    key = (frozenset(x.n.items()), x.dc, tuple(sorted(x.d.items())))
    if key in LOWER:
        return LOWER[key]
    unknown = 0
    for k in range(4, -16, -1):
        t = Fraction(4) ** k
        c = E.fcmp(x, t, frozenset((-1,)))
        d = E.fcmp(x, -t, frozenset((1,)))
        c = c & d
        if isinstance(c, int):
            if not c & 1:
                break
            continue
        r, m = E.solve([c.e], c.vs)
        if r == "unsat":
            break
        unknown += r == "unknown"
        if unknown == 2:
            raise NoBound
    else:
        raise NoBound
    LOWER[key] = t
    return t


def rnd(r, e, bits):
    if not isinstance(r, RF):
        if isinstance(r, (UndefT, float)):
            return r
        if e == 0:
            if bits == 24:
                return Fraction(struct.unpack("<f", struct.pack("<f", float(r)))[0])
            return Fraction(float(r)) if bits == 53 else r
        r = RF({0: r.numerator} if r.numerator else {}, r.denominator)
    else:
        nn = r.nn
        r = RF(r.n, r.dc, r.d)
        r.nn = nn
    try:
        r.e = ulps(e + Fraction(1, 1 << bits) * (bound(r) + e)) if e < HUGE else HUGE
    except NoBound:
        r.e = HUGE
    return r


def huge(r):
    return rnd(r, HUGE, 53)


def guarded(f):
    """operations without a known bound of their error"""
    def g(*a):
        try:
            return f(*a)
        except NoBound:
            return huge(PLAIN[f.__name__](*a))
    g.__name__ = f.__name__
    return g


def ulps(e):
    """round the bound itself upwards to a short number"""
    if e == 0:
        return e
    k = e.denominator.bit_length() - e.numerator.bit_length() + 30
    return Fraction((e.numerator << k) // e.denominator + 1, 1 << k) if k > 0 else e


def zero(x):
    return not isinstance(x, (RF, UndefT)) and x == 0


def radd(a, b, bits):
    r = a + b
    if not ON:
        return r
    if zero(a):
        return b
    if zero(b):
        return a
    return rnd(r, err(a) + err(b), bits)


def rsub(a, b, bits):
    r = a - b
    if not ON:
        return r
    if zero(b):
        return a
    if zero(a):
        return -b
    return rnd(r, err(a) + err(b), bits)


def power2(x):
    if isinstance(x, (RF, UndefT)) or x == 0:
        return False
    n, d = abs(Fraction(x)).as_integer_ratio()
    return n & (n - 1) == 0 and d & (d - 1) == 0


@guarded
def rmul(a, b, bits):
    r = a * b
    if not ON or isinstance(r, (UndefT, float)):
        return r
    if zero(a) or zero(b):
        return r
    for x, y in ((a, b), (b, a)):
        if power2(x) and isinstance(y, RF):
            if not isinstance(r, RF):
                r = RF({0: r.numerator} if r.numerator else {}, r.denominator)
            r.e = y.e * abs(x)
            return r
    ea, eb = err(a), err(b)
    e = ea * eb
    if ea:
        e += ea * bound(b)
    if eb:
        e += eb * bound(a)
    return rnd(r, e, bits)


@guarded
def rdiv(a, b, bits):
    r = trans.fdiv(a, b)
    if not ON or isinstance(r, (UndefT, float)):
        return r
    ea, eb = err(a), err(b)
    e = Fraction(0)
    if ea or eb:
        l = lower(b)
        if eb * 2 > l:
            return huge(r)
        e = (ea + (bound(r) * eb if eb else 0)) / (l - eb)
    return rnd(r, e, bits)


def rneg(a):
    return -a


def rtrunc(a):
    if not ON:
        return trans.fptrunc(a)
    return rnd(a, err(a), 24)


@guarded
def rsqrt(a):
    r = SQRT(a)
    if not ON or isinstance(r, (UndefT, float)):
        return r
    e = err(a)
    if e:
        l = lower(a)
        if 2 * e > l:
            return huge(r)
        s = Fraction(1)
        while s * s > l:
            s /= 2
        while s * s * 4 <= l:
            s *= 2
        e = e / s
    return rnd(r, e, 53)


def rmuladd(w, a, b, c):
    return radd(rmul(a, b, 53), c, 53)


def check(v, exact, tol, label):
    label = "round-off: " + label
    tol = Fraction(tol)
    if not isinstance(v, RF):
        E.check_near(v, exact, tol, label)
        return
    w = RF(v.n, v.dc, v.d)
    E.check_near(w, exact, tol / 2, label)
    if v.e > tol / 2:
        E.models(label, 200)
    else:
        E.tq += 1


SQRT = None
PLAIN = dict(rmul=lambda a, b, bits: a * b, rdiv=lambda a, b, bits: trans.fdiv(a, b), rsqrt=lambda a: SQRT(a))


def install(m):
    global SQRT
    SQRT = E.sqrt
    E.sqrt = rsqrt
    m.rounding = True
    trans.INTRINSICS["fmuladd"] = rmuladd
    m.ns.update(radd=radd, rsub=rsub, rmul=rmul, rdiv=rdiv, rtrunc=rtrunc)
