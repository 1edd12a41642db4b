"""Exact real arithmetic for symbolic doubles.

A symbolic real is a rational function num / (dc * prod f_i^e_i) where num and
the f_i are polynomials with integer coefficients over declared variables.
Variables introduced by sqrt carry a rewrite rule s^2 -> polynomial, so every
value has a normal form; two values that are algebraically equal modulo the
sqrt rules subtract to the zero polynomial.
"""
from fractions import Fraction
from math import gcd, isqrt

BITS = 10                   # bits per exponent in a packed monomial
EMASK = (1 << BITS) - 1

VARS = []                   # names
RULES = {}                  # var index -> poly dict (value of var^2)
RULEMASK = []               # list of (shift, rule)


class Inconclusive(Exception):
    pass


class EngineError(Exception):
    pass


MAXTERMS = 40000


def new_var(name):
    VARS.append(name)
    return len(VARS) - 1


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v += c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def _mulraw(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 60 * MAXTERMS:
        raise Inconclusive("polynomial too large")
    r = {}
    get = r.get
    bi = list(b.items())
    for ma, ca in a.items():
        for mb, cb in bi:
            m = ma + mb
            r[m] = get(m, 0) + ca * cb
    return {m: c for m, c in r.items() if c}


def reduce_sqrt(p):
    """apply s^2 -> rule until no square of a sqrt variable is left"""
    if not RULES:
        return p
    for v in sorted(RULES, reverse=True):   # later sqrt vars may contain earlier
        sh = v * BITS
        if all((m >> sh) & EMASK < 2 for m in p):
            continue
        byexp = {}
        for m, c in p.items():
            e = (m >> sh) & EMASK
            byexp.setdefault(e >> 1, {})[m - ((e & ~1) << sh)] = c
        res = {}
        pw = {0: 1}
        cur = 0
        for k in sorted(byexp):
            while cur < k:
                pw = _mulraw(pw, RULES[v])
                pw = reduce_sqrt(pw)
                cur += 1
            q = byexp[k]
            if k:
                q = _mulraw(q, pw)
            res = padd(res, q)
        p = res
    return p


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and 0 in a:
        return pscale(b, a[0])
    if len(b) == 1 and 0 in b:
        return pscale(a, b[0])
    r = _mulraw(a, b)
    if RULES:
        r = reduce_sqrt(r)
    return r


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


def monomial_gcd(a):
    """componentwise minimum of the exponents"""
    it = iter(a)
    g = next(it)
    if g == 0:
        return 0
    for m in it:
        if g == 0:
            return 0
        r = 0
        sh = 0
        x, y = g, m
        while x and y:
            ex, ey = x & EMASK, y & EMASK
            r |= (ex if ex < ey else ey) << sh
            sh += BITS
            x >>= BITS
            y >>= BITS
        g = r
    return g


def mdiv(m, d):
    """m / d for packed monomials, None if not divisible"""
    r = m - d
    if r < 0:
        return None
    x, y = m, d
    while y:
        if (x & EMASK) < (y & EMASK):
            return None
        x >>= BITS
        y >>= BITS
    return r


def pdivexact(a, b):
    """a / b if the division is exact over the integers, else None"""
    if not a:
        return {}
    if len(b) == 1:
        (mb, cb), = b.items()
        r = {}
        for m, c in a.items():
            q = mdiv(m, mb)
            if q is None or c % cb:
                return None
            r[q] = c // cb
        return r
    lb = max(b)
    cb = b[lb]
    la0 = min(a)
    lb0 = min(b)
    q0 = mdiv(la0, lb0)
    if q0 is None or a[la0] % b[lb0]:
        return None
    rem = dict(a)
    quo = {}
    bi = list(b.items())
    steps = 0
    while rem:
        lm = max(rem)
        q = mdiv(lm, lb)
        c = rem[lm]
        if q is None or c % cb:
            return None
        k = c // cb
        quo[q] = k
        for mb, cc in bi:
            m = mb + q
            v = rem.get(m, 0) - k * cc
            if v:
                rem[m] = v
            else:
                rem.pop(m, None)
        steps += 1
        if steps > 4000:
            return None
    return quo


def psqrt(a):
    """polynomial square root over the integers (up to sign) or None"""
    if not a:
        return {}
    lm = max(a)
    c = a[lm]
    if c < 0:
        return None
    r0 = isqrt(c)
    if r0 * r0 != c:
        return None
    m = lm
    half = 0
    sh = 0
    while m:
        e = m & EMASK
        if e & 1:
            return None
        half |= (e >> 1) << sh
        sh += BITS
        m >>= BITS
    res = {half: r0}
    rem = dict(a)
    del rem[lm]
    steps = 0
    while rem:
        lm = max(rem)
        q = mdiv(lm, half)
        if q is None or rem[lm] % (2 * r0):
            return None
        k = rem[lm] // (2 * r0)
        # subtract 2*k*q*res + k^2 q^2
        for mm, cc in list(res.items()):
            t = mm + q
            v = rem.get(t, 0) - 2 * k * cc
            if v:
                rem[t] = v
            else:
                rem.pop(t, None)
        t = q + q
        v = rem.get(t, 0) - k * k
        if v:
            rem[t] = v
        else:
            rem.pop(t, None)
        if q in res:
            return None
        res[q] = k
        steps += 1
        if steps > 500:
            return None
    return res


def canon(p):
    """primitive part with positive leading coefficient; returns (key, factor)
    with p = factor * poly(key)"""
    c = pcontent(p)
    if p[max(p)] < 0:
        c = -c
    if c == 1:
        q = p
    else:
        q = {m: v // c for m, v in p.items()}
    return frozenset(q.items()), c


# interned denominator factors
FACTORS = []
FACTOR_IDX = {}


def factor_id(p):
    key = frozenset(p.items())
    i = FACTOR_IDX.get(key)
    if i is None:
        i = len(FACTORS)
        FACTORS.append(p)
        FACTOR_IDX[key] = i
    return i


def is_sqrt_monomial(m):
    for v in RULES:
        if (m >> (v * BITS)) & EMASK:
            return True
    return False


ENGINE = None      # set by the executor; offers may_divide / sign


class RF:
    __slots__ = ("n", "dc", "d", "nn", "e")

    def __init__(self, n, dc=1, d=None):
        self.n = n
        self.nn = False           # known to be non-negative: a sum of squares
        self.dc = dc
        self.d = d or {}
        self.e = 0                # bound of the rounding error (rounding.py)

    # -- helpers
    @staticmethod
    def var(i):
        return RF({1 << (i * BITS): 1})

    @staticmethod
    def of(x):
        if isinstance(x, RF):
            return x
        if isinstance(x, Fraction):
            return RF({0: x.numerator} if x.numerator else {}, x.denominator)
        if isinstance(x, float):
            x = Fraction(x)
            return RF({0: x.numerator} if x.numerator else {}, x.denominator)
        if isinstance(x, int):
            raise TypeError("int used as real")
        raise TypeError("not a real: %r" % (x,))

    def norm(self):
        """return a concrete Fraction if constant"""
        n = self.n
        if not n:
            return Fraction(0)
        if not self.d and len(n) == 1 and 0 in n:
            return Fraction(n[0], self.dc)
        if self.dc != 1:
            g = gcd(pcontent(n), self.dc)
            if g != 1:
                self.n = {m: c // g for m, c in n.items()}
                self.dc //= g
        if self.d:
            if len(self.n) <= 3000:
                changed = False
                for i in list(self.d):
                    f = FACTORS[i]
                    while i in self.d:
                        q = pdivexact(self.n, f)
                        if q is None:
                            break
                        self.n = q
                        changed = True
                        if self.d[i] == 1:
                            del self.d[i]
                        else:
                            self.d[i] -= 1
                if changed:
                    return self.norm()
        return self

    def _lcm(self, o):
        """bring both to a common denominator: (n1, n2, dc, d)"""
        n1, n2 = self.n, o.n
        if self.dc == o.dc:
            dc = self.dc
        else:
            g = gcd(self.dc, o.dc)
            n1 = pscale(n1, o.dc // g)
            n2 = pscale(n2, self.dc // g)
            dc = self.dc // g * o.dc
        if self.d == o.d:
            return n1, n2, dc, dict(self.d)
        d = dict(self.d)
        for i, e in o.d.items():
            if d.get(i, 0) < e:
                d[i] = e
        for i, e in d.items():
            for _ in range(e - self.d.get(i, 0)):
                n1 = pmul(n1, FACTORS[i])
            for _ in range(e - o.d.get(i, 0)):
                n2 = pmul(n2, FACTORS[i])
        return n1, n2, dc, d

    def __add__(self, o):
        if not isinstance(o, RF):
            if isinstance(o, UndefT):
                return o
            o = RF.of(o)
        n1, n2, dc, d = self._lcm(o)
        r = RF(padd(n1, n2), dc, d).norm()
        if self.nn and (o.nn or not o.n) and isinstance(r, RF):
            r.nn = True
        return r
    __radd__ = __add__

    def __neg__(self):
        r = RF(pneg(self.n), self.dc, self.d)
        r.e = self.e
        return r

    def __sub__(self, o):
        if not isinstance(o, RF):
            if isinstance(o, UndefT):
                return o
            o = RF.of(o)
        n1, n2, dc, d = self._lcm(o)
        return RF(padd(n1, pneg(n2)), dc, d).norm()

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, RF):
            if isinstance(o, UndefT):
                return o
            o = RF.of(o)
        d = dict(self.d)
        for i, e in o.d.items():
            d[i] = d.get(i, 0) + e
        r = RF(pmul(self.n, o.n), self.dc * o.dc, d).norm()
        if (self is o or self.nn and o.nn) and isinstance(r, RF):
            r.nn = True
        return r
    __rmul__ = __mul__

    def inverse(self):
        """1/self; the caller has made sure it is non-zero"""
        n = self.n
        num = {0: self.dc}
        for i, e in self.d.items():
            for _ in range(e):
                num = pmul(num, FACTORS[i])
        key, c = canon(n)
        n = dict(key)
        dc = 1
        if c < 0:
            num = pneg(num)
            c = -c
        dc = c
        d = {}
        g = monomial_gcd(n)
        if g:
            n = {m - g: v for m, v in n.items()}
            v = 0
            while g:
                e = g & EMASK
                if e:
                    if v in RULES:
                        # 1/s = s / s^2
                        for _ in range(e):
                            num = pmul(num, {1 << (v * BITS): 1})
                            rk, rc = canon(RULES[v])
                            if rc < 0:
                                num = pneg(num)
                                rc = -rc
                            dc *= rc
                            rp = dict(rk)
                            if not (len(rp) == 1 and 0 in rp):
                                fi = factor_id(rp)
                                d[fi] = d.get(fi, 0) + 1
                            else:
                                dc *= rp[0]
                    else:
                        fi = factor_id({1 << (v * BITS): 1})
                        d[fi] = d.get(fi, 0) + e
                g >>= BITS
                v += 1
        if not (len(n) == 1 and 0 in n):
            fi = factor_id(n)
            d[fi] = d.get(fi, 0) + 1
        else:
            dc *= n[0]
            if dc < 0:
                dc = -dc
                num = pneg(num)
        r = RF(num, dc, d).norm()
        return r

    def __truediv__(self, o):
        if isinstance(o, UndefT):
            return o
        if not isinstance(o, RF):
            o = Fraction(o)
            if o == 0:
                return ENGINE.divzero
            return self * (1 / o)
        if not ENGINE.may_divide(o):
            return ENGINE.divzero
        return self * o.inverse()

    def __rtruediv__(self, o):
        if isinstance(o, UndefT):
            return o
        if not ENGINE.may_divide(self):
            return ENGINE.divzero
        return self.inverse() * o

    def signpoly(self):
        """polynomial with the sign of this value (denominator non-zero)"""
        p = self.n
        for i, e in self.d.items():
            if e & 1:
                p = pmul(p, FACTORS[i])
        return p

    def __repr__(self):
        return "RF(%s / %d %s)" % (pstr(self.n), self.dc,
                                   [(pstr(FACTORS[i]), e) for i, e in self.d.items()])

    # comparisons must go through the executor
    def __eq__(self, o):
        raise EngineError("== on symbolic real")
    __lt__ = __gt__ = __le__ = __ge__ = __eq__
    __hash__ = None

    def __bool__(self):
        raise EngineError("truth value of symbolic real")


class UndefT:
    """undefined / poison / uninitialised value"""
    __slots__ = ()

    def _op(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _op
    __truediv__ = __rtruediv__ = __and__ = __rand__ = __or__ = __ror__ = _op
    __xor__ = __rxor__ = __neg__ = __mod__ = __rmod__ = _op
    __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = _op
    __floordiv__ = __rfloordiv__ = __invert__ = _op
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __pos__ = _op
    __hash__ = None

    def __bool__(self):
        ENGINE.undef_used()

    def __repr__(self):
        return "UNDEF"


UNDEF = UndefT()


def pstr(p):
    out = []
    for m, c in sorted(p.items(), reverse=True)[:8]:
        s = str(c)
        v = 0
        while m:
            e = m & EMASK
            if e:
                s += "*" + VARS[v] + ("^%d" % e if e > 1 else "")
            m >>= BITS
            v += 1
        out.append(s)
    if len(p) > 8:
        out.append("...[%d]" % len(p))
    return " + ".join(out) or "0"
