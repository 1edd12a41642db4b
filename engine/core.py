"""Symbolic state: bit-vector and boolean terms, path condition, forking, memory."""
import json
import os
import random
import signal
import struct
import sys
import time
from fractions import Fraction

import z3

import real
from real import RF, UNDEF, UndefT, EngineError, Inconclusive, Fraction as _F

z3.set_param("smt.random_seed", 1)


class CxxThrow(Exception):
    def __init__(self, ptr, tinfo):
        self.ptr = ptr
        self.tinfo = tinfo


class PathEnd(Exception):
    """the current path is finished (status, detail)"""
    def __init__(self, status, detail=""):
        self.status = status
        self.detail = detail


# ------------------------------------------------------------------ terms

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class SB:
    """symbolic boolean (i1)"""
    __slots__ = ("e", "vs", "fact")

    def __init__(self, e, vs, fact=None):
        self.e = e
        self.vs = vs
        self.fact = fact          # (key, allowed signs) for real sign atoms

    def __bool__(self):
        return E.decide(self)

    def __pos__(self):
        return self

    def __and__(self, o):
        if isinstance(o, SB):
            return mkb(z3.And(self.e, o.e), self.vs | o.vs)
        if isinstance(o, UndefT):
            return o
        return self if o & 1 else 0
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SB):
            return mkb(z3.Or(self.e, o.e), self.vs | o.vs)
        if isinstance(o, UndefT):
            return o
        return 1 if o & 1 else self
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SB):
            return mkb(z3.Xor(self.e, o.e), self.vs | o.vs)
        if isinstance(o, UndefT):
            return o
        return self.neg() if o & 1 else self
    __rxor__ = __xor__

    def neg(self):
        f = None
        if self.fact is not None:
            f = (self.fact[0], frozenset((-1, 0, 1)) - self.fact[1])
        return SB(z3.Not(self.e), self.vs, f)

    def __eq__(self, o):
        if isinstance(o, SB):
            return mkb(self.e == o.e, self.vs | o.vs)
        return self if o & 1 else self.neg()

    def __ne__(self, o):
        return (self == o) ^ 1

    def __add__(self, o):         # i1 add == xor
        return self ^ o
    __radd__ = __add__
    __sub__ = __rsub__ = __add__
    __hash__ = None


def mkb(e, vs):
    e = z3.simplify(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return SB(e, vs)


class BV:
    __slots__ = ("e", "w", "vs")

    def __init__(self, e, w, vs):
        self.e = e
        self.w = w
        self.vs = vs

    def _c(self, o):
        if isinstance(o, BV):
            if o.w != self.w:
                raise EngineError("width mismatch %d %d" % (self.w, o.w))
            return o.e, self.vs | o.vs
        if isinstance(o, int):
            return z3.BitVecVal(o, self.w), self.vs
        raise EngineError("bad bit-vector operand %r" % (o,))

    def _r(self, e, vs):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        return BV(e, self.w, vs)

    def __add__(self, o):
        if isinstance(o, UndefT):
            return o
        e, vs = self._c(o)
        return self._r(self.e + e, vs)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, UndefT):
            return o
        e, vs = self._c(o)
        return self._r(self.e - e, vs)

    def __rsub__(self, o):
        e, vs = self._c(o)
        return self._r(e - self.e, vs)

    def __mul__(self, o):
        if isinstance(o, UndefT):
            return o
        e, vs = self._c(o)
        return self._r(self.e * e, vs)
    __rmul__ = __mul__

    def __and__(self, o):
        if isinstance(o, UndefT):
            return o
        if isinstance(o, int) and (o & ((1 << self.w) - 1)) == (1 << self.w) - 1:
            return self
        e, vs = self._c(o)
        return self._r(self.e & e, vs)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, UndefT):
            return o
        e, vs = self._c(o)
        return self._r(self.e | e, vs)
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, UndefT):
            return o
        e, vs = self._c(o)
        return self._r(self.e ^ e, vs)
    __rxor__ = __xor__

    def __lt__(self, o):
        e, vs = self._c(o)
        return mkb(z3.ULT(self.e, e), vs)

    def __gt__(self, o):
        e, vs = self._c(o)
        return mkb(z3.UGT(self.e, e), vs)

    def __le__(self, o):
        e, vs = self._c(o)
        return mkb(z3.ULE(self.e, e), vs)

    def __ge__(self, o):
        e, vs = self._c(o)
        return mkb(z3.UGE(self.e, e), vs)

    def __eq__(self, o):
        if isinstance(o, UndefT):
            return o
        e, vs = self._c(o)
        return mkb(self.e == e, vs)

    def __ne__(self, o):
        if isinstance(o, UndefT):
            return o
        e, vs = self._c(o)
        return mkb(self.e != e, vs)
    __hash__ = None

    def __bool__(self):
        raise EngineError("truth value of bit-vector")

    def __index__(self):
        return E.concretize(self)


class FPBits:
    """bit pattern of a (possibly symbolic) double copied through an integer register"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __xor__(self, k):
        if k == 1 << 63 or k == 1 << 31:
            return FPFlipped(self.v)
        raise EngineError("integer operation on symbolic real bits")

    def __and__(self, k):
        if k == (1 << 63) - 1 or k == (1 << 31) - 1:
            return FPBits(E.fabs(self.v))
        raise EngineError("integer operation on symbolic real bits")


class FPFlipped(FPBits):
    """bit pattern with the sign bit flipped: a negation, or the left side of a signed comparison"""
    __slots__ = ("org",)

    def __init__(self, v):
        FPBits.__init__(self, -v)
        self.org = v

    def __lt__(self, k):
        if k == 1 << 63 or k == 1 << 31:
            return E.fcmp(self.org, Fraction(0), frozenset((-1,)))
        raise EngineError("integer comparison of symbolic real bits")

    def __gt__(self, k):
        if k == (1 << 63) - 1 or k == (1 << 31) - 1:
            return E.fcmp(self.org, Fraction(0), frozenset((0, 1)))
        raise EngineError("integer comparison of symbolic real bits")


def bvres(e, w, vs):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return BV(e, w, vs)


def bvterm(x, w):
    if isinstance(x, BV):
        return x.e
    if isinstance(x, SB):
        return z3.If(x.e, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return z3.BitVecVal(x, w)


def vs_of(*xs):
    r = frozenset()
    for x in xs:
        if isinstance(x, (BV, SB)):
            r |= x.vs
    return r


# ------------------------------------------------------------------ polynomials -> z3

_z3vars = {}
ZERO = z3.RealVal(0)


def z3var(i):
    v = _z3vars.get(i)
    if v is None:
        v = z3.Real("r%d_%s" % (i, real.VARS[i]))
        _z3vars[i] = v
    return v


def pvars(p):
    allm = 0
    for m in p:
        allm |= m
    r = set()
    v = 0
    while allm:
        if allm & real.EMASK:
            r.add(("r", v))
        allm >>= real.BITS
        v += 1
    return frozenset(r)


def pz3(p):
    terms = []
    for m, c in p.items():
        fs = []
        v = 0
        while m:
            e = m & real.EMASK
            for _ in range(e):
                fs.append(z3var(v))
            m >>= real.BITS
            v += 1
        if not fs:
            terms.append(z3.RealVal(c))
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            if c != 1:
                t = z3.RealVal(c) * t
            terms.append(t)
    if not terms:
        return ZERO
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


def pdegree(p):
    d = 0
    for m in p:
        s = 0
        while m:
            s += m & real.EMASK
            m >>= real.BITS
        d = max(d, s)
    return d


def frac_of_z3(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    raise EngineError("model value %s" % v)


# ------------------------------------------------------------------ memory

SHIFT = 24
OMASK = (1 << SHIFT) - 1


class Obj:
    __slots__ = ("base", "size", "cells", "fills", "name", "kind")

    def __init__(self, base, size, name, kind):
        self.base = base
        self.size = size
        self.cells = {}
        self.fills = None
        self.name = name
        self.kind = kind


def real_bits(v, n):
    """bit pattern of a concrete real"""
    f = float(v)
    if n == 8:
        return struct.unpack("<Q", struct.pack("<d", f))[0]
    if n == 4:
        return struct.unpack("<I", struct.pack("<f", f))[0]
    raise EngineError("bits of fp size %d" % n)


def bits_real(b, n):
    if n == 8:
        f = struct.unpack("<d", struct.pack("<Q", b))[0]
    elif n == 4:
        f = struct.unpack("<f", struct.pack("<I", b))[0]
    elif b == 0:
        f = 0.0
    else:
        raise EngineError("fp80 from bits")
    return E.fpconst(f)


class Engine:
    def __init__(self):
        self.objs = {}
        self.nextid = 16
        self.pc = []              # list of (z3 expr, vars)
        self.facts = {}           # canonical polynomial key -> set of possible signs
        self.inputs = []          # (name, kind, data)
        self.names = {}
        self.bounds = {}          # real var index -> (lo, hi) Fractions
        self.ieee = False
        self.maxconc = 5000
        self.steps = [0, 50_000_000]
        self.deadline = None
        self.checks = []          # (label, how)
        self.cands = []           # violation candidates of this path
        self.nq = {"sat": 0, "unsat": 0, "unknown": 0}
        self.qtime = 0.0
        self.tq = 0               # trivially closed checks
        self.undecided = []
        self.outfd = None
        self.jobr = self.jobw = None
        self.owntoken = False
        self.children = []
        self.model = None         # a model of pc (z3) or None
        self.forks = 0
        self.npaths = 0
        self.timeout = 20000
        self.sitofp_cache = {}
        self.reached = set()
        self.sqrt_cache = {}
        self.funcs_used = set()
        self.rng = random.Random(1)
        self.maxforks = 200000
        self.outs = []
        self.slowq = []
        self.feas_cache = {}
        self.obs = []
        self.funcs_base = set()

    # -------------------------------------------------------------- memory
    def alloc(self, size, name="", kind="heap"):
        i = self.nextid
        span = (max(size, 1) + OMASK) >> SHIFT
        self.nextid = i + span
        o = Obj(i << SHIFT, size, name, kind)
        for k in range(span):
            self.objs[i + k] = o
        return i << SHIFT

    def free(self, a):
        if a == 0:
            return
        o = self.objs.get(a >> SHIFT)
        if o is None or o.base != a:
            raise MemError("free of invalid pointer")
        if o.kind != "heap":
            raise MemError("free of non-heap memory (%s)" % o.name)
        self.drop(o)

    def drop(self, o):
        i = o.base >> SHIFT
        span = (max(o.size, 1) + OMASK) >> SHIFT
        for k in range(span):
            del self.objs[i + k]

    # -------------------------------------------------------------- fp constants
    def fpconst(self, f):
        if f != f or f in (float("inf"), float("-inf")):
            return f              # python float special
        return f if self.ieee else Fraction(f)

    # -------------------------------------------------------------- solver
    def _slice(self, vs):
        """constraints connected with the variables vs"""
        vs = set(vs)
        rest = self.pc
        out = []
        changed = True
        while changed:
            changed = False
            nrest = []
            for c in rest:
                if c[1] & vs:
                    out.append(c)
                    if not c[1] <= vs:
                        vs |= c[1]
                        changed = True
                else:
                    nrest.append(c)
            rest = nrest
        return out, vs

    def _sqrt_defs(self, vs):
        out = []
        for kind, v in list(vs):
            if kind == "r" and v in real.RULES:
                pass
        return out

    def solve(self, extra, vs, full=False, timeout=None, want_model=True):
        """satisfiability of path condition and extra; returns (result, model)"""
        if full:
            cons = [c[0] for c in self.pc]
            allvs = set()
            for c in self.pc:
                allvs |= c[1]
            allvs |= set(vs)
        else:
            cs, allvs = self._slice(vs)
            cons = [c[0] for c in cs]
        cons = cons + list(extra)
        hasreal = any(k == "r" for k, _ in allvs)
        hasbv = any(k == "b" for k, _ in allvs)
        t0 = time.time()
        timeout = timeout or self.timeout
        if self.deadline:
            left = int((self.deadline - t0) * 1000)
            if left < 200:
                raise PathEnd("timeout", "deadline reached")
            timeout = min(timeout, left)
        res, model = z3.unknown, None
        if hasreal and not hasbv:
            tries = [("default", min(timeout, 2500)), ("nlsat", min(timeout, 12000)), ("default", timeout)]
        else:
            tries = [("default", timeout)]
        for which, to in tries:
            if which == "nlsat":
                s = z3.Tactic("qfnra-nlsat").solver()
            elif not hasreal and hasbv:
                s = z3.SolverFor("QF_BV")
            else:
                s = z3.Solver()
            s.set("timeout", int(to))
            s.add(cons)
            try:
                res = s.check()
            except z3.Z3Exception as ex:
                res = z3.unknown
            if res == z3.sat:
                model = s.model()
                break
            if res == z3.unsat:
                break
            if self.deadline and time.time() > self.deadline:
                break
        dt = time.time() - t0
        self.qtime += dt
        r = str(res)
        self.nq[r] += 1
        if dt > 3:
            self.slowq.append((round(dt, 1), r))
        return r, model

    def add(self, e, vs, fact=None):
        self.pc.append((e, vs))
        if fact is not None:
            k, s = fact
            self.facts[k] = self.facts.get(k, frozenset((-1, 0, 1))) & s

    def evalmodel(self, b):
        if self.model is None:
            return None
        try:
            v = self.model.eval(b.e, model_completion=True)
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
        except z3.Z3Exception:
            pass
        return None

    def fact_decide(self, b):
        if b.fact is not None:
            s = self.facts.get(b.fact[0])
            if s is not None:
                if s <= b.fact[1]:
                    return True
                if not (s & b.fact[1]):
                    return False
        return None

    def decide(self, b):
        d = self.fact_decide(b)
        if d is not None:
            return d
        mv = self.evalmodel(b)
        nb = b.neg()
        mt = mf = None
        if mv is True:
            rt = "sat"
            mt = self.model
        else:
            rt, mt = self.solve([b.e], b.vs)
        if mv is False:
            rf = "sat"
            mf = self.model
        else:
            rf, mf = ("sat", None) if rt == "unsat" else self.solve([nb.e], b.vs)
        if rt == "unknown" or rf == "unknown":
            # both sides are explored; a side that is in fact infeasible only
            # adds vacuous work
            self.undecided_branch = getattr(self, "undecided_branch", 0) + 1
        if rt == "unsat":
            self.facts_only(nb)
            return False
        if rf == "unsat":
            self.facts_only(b)
            return True
        return self.fork2(b, nb)

    def facts_only(self, b):
        if b.fact is not None:
            k, s = b.fact
            self.facts[k] = self.facts.get(k, frozenset((-1, 0, 1))) & s

    def fork2(self, b, nb):
        if self.do_fork():
            # child
            self.add(b.e, b.vs, b.fact)
            self.refresh_model(b)
            return True
        self.add(nb.e, nb.vs, nb.fact)
        self.refresh_model(nb)
        return False

    def refresh_model(self, b):
        if self.model is not None and self.evalmodel(b) is not True:
            self.model = None

    def do_fork(self):
        """returns True in the child"""
        self.forks += 1
        if self.forks > self.maxforks:
            raise PathEnd("engine", "fork limit")
        tok = False
        try:
            tok = len(os.read(self.jobr, 1)) == 1
        except BlockingIOError:
            tok = False
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            self.children = []
            self.owntoken = tok
            self.nq = {"sat": 0, "unsat": 0, "unknown": 0}
            self.qtime = 0.0
            self.tq = 0
            self.forks = 0
            self.steps_base = self.steps[0]
            self.checks_base = len(self.checks)
            self.slowq = []
            self.funcs_base = set(self.funcs_used)
            if self.deadline:
                signal.alarm(max(1, int(self.deadline - time.time()) + 30))
            return True
        if tok:
            self.children.append(pid)
        else:
            self.reap(pid)
        return False

    def reap(self, pid):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            self.emit(dict(kind="crash", status=st))

    def emit(self, d):
        s = (json.dumps(d) + "\n").encode()
        os.write(self.outfd, s)

    def assume(self, b):
        if isinstance(b, SB):
            d = self.fact_decide(b)
            if d is True:
                return
            if self.evalmodel(b) is True:
                self.add(b.e, b.vs, b.fact)
                return
            r, m = self.solve([b.e], b.vs)
            if r == "unsat":
                raise PathEnd("infeasible")
            self.add(b.e, b.vs, b.fact)
            self.model = None
        elif isinstance(b, UndefT):
            self.undef_used()
        elif not b & 1:
            raise PathEnd("infeasible")

    def concretize(self, x):
        if isinstance(x, int):
            return x
        if isinstance(x, UndefT):
            self.undef_used()
        if isinstance(x, SB):
            return 1 if self.decide(x) else 0
        if not isinstance(x, BV):
            raise EngineError("concretize %r" % (x,))
        n = 0
        while True:
            r, m = self.solve([], x.vs)
            if r != "sat":
                raise Inconclusive("concretize: %s" % r)
            v = m.eval(x.e, model_completion=True).as_long()
            r, _ = self.solve([x.e != v], x.vs)
            if r == "unsat":
                return v
            n += 1
            if n > self.maxconc:
                raise Inconclusive("too many values in concretization")
            if self.do_fork():
                self.add(x.e == v, x.vs)
                self.model = None
                return v
            self.add(x.e != v, x.vs)
            self.model = None

    def feasible(self, x, limit):
        """all values of x under the path condition, None if more than limit"""
        cs, _ = self._slice(x.vs)
        key = (x.e.get_id(), len(cs), cs[-1][0].get_id() if cs else 0)
        c = self.feas_cache.get(key)
        if c is not None:
            return c[0]
        t0 = time.time()
        s = z3.SolverFor("QF_BV")
        s.set("timeout", self.timeout)
        s.add([c[0] for c in cs])
        vals = []
        while True:
            r = s.check()
            self.nq[str(r)] += 1
            if r == z3.unsat:
                break
            if r != z3.sat or len(vals) >= limit:
                vals = None
                break
            v = s.model().eval(x.e, model_completion=True).as_long()
            vals.append(v)
            s.add(x.e != v)
        self.qtime += time.time() - t0
        if vals is not None:
            if not vals:
                raise PathEnd("infeasible")
            vals.sort()
        self.feas_cache[key] = (vals, x.e, cs)
        return vals

    def choose(self, name, lo, hi):
        """input whose value is split right away"""
        name = self.uniq(name)
        for v in range(lo, hi):
            if self.do_fork():
                self.inputs.append((name, "int", v))
                return v
        self.inputs.append((name, "int", hi))
        return hi

    def unreachable(self, where):
        self.candidate("undefined behaviour: control reaches the end of " + where, None)
        raise PathEnd("unreachable")

    def steplimit(self):
        self.candidate("no termination within the step bound", None)
        raise PathEnd("steps")

    # -------------------------------------------------------------- reals
    def sign_atom(self, v, signs):
        """SB for sign(v) in signs (subset of {-1,0,1})"""
        if v.nn:
            if 0 in signs and 1 in signs:
                return 1
            if signs == NEG:
                return 0
        p = v.n
        flip = 1
        for i, e in v.d.items():
            if e & 1:
                f = real.FACTORS[i]
                k, cc = real.canon(f)
                kn = self.facts.get(k)
                if kn == POS:
                    flip *= 1 if cc > 0 else -1
                elif kn == NEG:
                    flip *= -1 if cc > 0 else 1
                else:
                    p = real.pmul(p, f)
        if flip < 0:
            signs = frozenset(-x for x in signs)
        if not p:
            return 1 if 0 in signs else 0
        # drop variables known to be positive
        g = real.monomial_gcd(p)
        if g:
            i = 0
            h = g
            while h:
                e = h & real.EMASK
                if e and self.facts.get(frozenset(((1 << (i * real.BITS), 1),))) == POS:
                    p = {m - (e << (i * real.BITS)): c for m, c in p.items()}
                h >>= real.BITS
                i += 1
        if len(p) == 1 and 0 in p:
            return 1 if (1 if p[0] > 0 else -1) in signs else 0
        # factor out the content and normalise the sign
        key, c = real.canon(p)
        if c < 0:
            signs = frozenset(-s for s in signs)
        signs = frozenset(signs)
        known = self.facts.get(key)
        if known is not None:
            if known <= signs:
                return 1
            if not (known & signs):
                return 0
        q = dict(key)
        if 0 not in signs or 1 in signs or -1 in signs:
            pass
        ex = pz3(q)
        if signs == {1}:
            e = ex > 0
        elif signs == {-1}:
            e = ex < 0
        elif signs == {0}:
            e = ex == 0
        elif signs == {0, 1}:
            e = ex >= 0
        elif signs == {0, -1}:
            e = ex <= 0
        elif signs == {1, -1}:
            e = ex != 0
        else:
            return 1 if signs else 0
        # even single-variable sqrt variables are positive: handled by pc
        b = z3.simplify(e)
        if z3.is_true(b):
            return 1
        if z3.is_false(b):
            return 0
        return SB(e, pvars(q), (key, signs))

    def may_divide(self, v):
        """is v non-zero?  (on a path where it is zero the quotient is poison)"""
        b = self.sign_atom(v, frozenset((-1, 1)))
        if isinstance(b, int):
            return bool(b)
        if self.fact_decide(b) is True:
            return True
        return self.decide(b)

    def division_by_zero(self):
        self.candidate("division by zero", None)
        raise PathEnd("divzero")

    def undef_used(self):
        if os.environ.get("VP_DEBUG"):
            import traceback
            traceback.print_stack()
        self.candidate("use of an uninitialised value", None)
        raise PathEnd("undef")

    def sqrt(self, v):
        if isinstance(v, float):
            return v ** 0.5 if v >= 0 else float("nan")
        if isinstance(v, UndefT):
            return v
        if isinstance(v, Fraction):
            if v < 0:
                self.candidate("square root of a negative number", None)
                raise PathEnd("nan")
            if v == 0:
                return Fraction(0)
            if E.ieee:
                return float(v) ** 0.5
            return self.sqrt_int(v.numerator * v.denominator) * Fraction(1, v.denominator)
        # sqrt(n / (dc prod f^e)) = sqrt(n dc) / dc * prod_odd sqrt(f)/f^((e+1)/2) * prod_even 1/|f|^(e/2)
        n = v.n
        d = {}
        flip = 1
        roots = []
        for i, e in v.d.items():
            f = RF(real.FACTORS[i])
            sg = self.sign_atom(f, frozenset((1,)))
            pos = sg if isinstance(sg, int) else self.decide(sg)
            if e & 1:
                if not pos:
                    n = real.pneg(n)
                    roots.append(real.pneg(real.FACTORS[i]))
                    if ((e + 1) // 2) & 1:
                        flip = -flip
                else:
                    roots.append(real.FACTORS[i])
            elif not pos and (e // 2) & 1:
                flip = -flip
            d[i] = (e + 1) // 2
        if not n:
            return Fraction(0)
        root = real.psqrt(n)
        if v.nn:
            key, c = real.canon(n)
            both = frozenset((0, 1) if c > 0 else (0, -1))
            self.facts[key] = self.facts.get(key, both) & both
            b = 1
        else:
            b = self.sign_atom(RF(n), frozenset((0, 1)))
        if root is None and not (b if isinstance(b, int) else self.decide(b)):
            self.candidate("square root of a negative number", None)
            raise PathEnd("nan")
        r = self.sqrt_poly(n)
        for f in roots:
            r = r * self.sqrt_poly(f)
        r = r * self.sqrt_int(v.dc) * RF({0: flip}, v.dc, d).norm()
        return r

    def sqrt_int(self, k):
        """square root of a positive integer"""
        sq = 1
        j = 2
        from math import isqrt
        while j * j <= k and j < 3000:
            while k % (j * j) == 0:
                k //= j * j
                sq *= j
            j += 1
        r = isqrt(k)
        if r * r == k:
            return Fraction(sq * r)
        return self.sqrt_var({0: k}) * Fraction(sq)

    def sqrt_var(self, n):
        key = frozenset(n.items())
        idx = self.sqrt_cache.get(key)
        if idx is None:
            idx = real.new_var("sqrt%d" % len(self.sqrt_cache))
            real.RULES[idx] = n
            self.sqrt_cache[key] = idx
            x = z3var(idx)
            self.add(z3.And(x >= 0, x * x == pz3(n)), pvars(n) | {("r", idx)})
            kk, _ = real.canon({1 << (idx * real.BITS): 1})
            s0 = self.sign_atom(RF(n), frozenset((1,)))
            pos = (s0 == 1) if isinstance(s0, int) else (self.fact_decide(s0) is True)
            self.facts[kk] = frozenset((1,)) if pos else frozenset((0, 1))
            bd = self.pbound(n)
            if bd is not None:
                self.bounds[idx] = (Fraction(0), max(bd, Fraction(1)))
        return RF.var(idx)

    def sqrt_poly(self, n):
        """square root of a polynomial known to be non-negative"""
        root = real.psqrt(n)
        if root is not None:
            rr = RF(root)
            s = self.sign_atom(rr, frozenset((0, 1)))
            if not (s if isinstance(s, int) else self.decide(s)):
                rr = -rr
            return rr.norm()
        c = real.pcontent(n)
        if c > 1:
            n = {m: v // c for m, v in n.items()}
        res = self.sqrt_int(c)
        # split off radicands that are known to be positive
        for rule in list(real.RULES.values()):
            if len(rule) < 2:
                continue
            key, cc = real.canon(rule)
            f = dict(key)
            if f == n:
                break
            s = self.facts.get(key)
            if s != frozenset((1,)) or cc < 0:
                continue
            q = real.pdivexact(n, f)
            if q is not None:
                return res * self.sqrt_poly(f) * self.sqrt_poly(q)
        if len(n) == 1 and 0 in n:
            return res * self.sqrt_int(n[0])
        root = real.psqrt(n)
        if root is not None:
            return res * self.sqrt_poly(n)
        return self.sqrt_var(n) * res

    def fabs(self, v):
        if isinstance(v, (Fraction, float)):
            return abs(v)
        if isinstance(v, UndefT):
            return v
        s = self.sign_atom(v, frozenset((0, 1)))
        if s if isinstance(s, int) else self.decide(s):
            return v
        return -v

    def fcmp(self, a, b, signs):
        """sign(a-b) in signs"""
        if isinstance(a, UndefT) or isinstance(b, UndefT):
            return a if isinstance(a, UndefT) else b
        if not isinstance(a, RF) and not isinstance(b, RF):
            if a != a or b != b:
                return 0
            s = (a > b) - (a < b)
            return 1 if s in signs else 0
        if isinstance(a, float) and abs(a) == float("inf"):
            return 1 if (1 if a > 0 else -1) in signs else 0
        if isinstance(b, float) and abs(b) == float("inf"):
            return 1 if (-1 if b > 0 else 1) in signs else 0
        if (self.rooty(a) or self.rooty(b)) and self.rooty(a, True) and self.rooty(b, True):
            # square roots: compare the squares
            d = a * a - b * b
        else:
            d = a - b
        if not isinstance(d, RF):
            s = (d > 0) - (d < 0)
            return 1 if s in signs else 0
        return self.sign_atom(d, signs)

    def rooty(self, v, const=False):
        """non-negative monomial in square roots (or a non-negative constant)"""
        if not isinstance(v, RF):
            return const and v >= 0
        if len(v.n) != 1:
            return False
        (m, c), = v.n.items()
        if c < 0 or m == 0:
            return False
        for i, e in v.d.items():
            if e & 1:
                key, cc = real.canon(real.FACTORS[i])
                if cc < 0 or self.facts.get(key) != frozenset((1,)):
                    return False
        k = 0
        while m:
            if m & real.EMASK and k not in real.RULES:
                return False
            m >>= real.BITS
            k += 1
        return True

    def sitofp(self, x, w, signed):
        if isinstance(x, int):
            if signed and x >> (w - 1):
                x -= 1 << w
            return float(x) if self.ieee else Fraction(x)
        if isinstance(x, UndefT):
            return x
        if isinstance(x, SB):
            return self.sitofp(self.concretize(x), w, signed)
        key = (x.e.get_id(), signed)
        r = self.sitofp_cache.get(key)
        if r is None:
            i = real.new_var("int%d" % len(self.sitofp_cache))
            ie = z3.BV2Int(x.e, signed)
            self.add(z3var(i) == z3.ToReal(ie), x.vs | {("r", i)})
            r = (RF.var(i), x.e)
            self.sitofp_cache[key] = r
        return r[0]

    def fptoint(self, v, w, signed):
        if isinstance(v, (Fraction, float)):
            return int(v) & ((1 << w) - 1)
        if isinstance(v, UndefT):
            return v
        import trans
        return int(trans.INTRINSICS["trunc"](None, v)) & ((1 << w) - 1)

    # -------------------------------------------------------------- property API
    def new_int(self, name, w, lo, hi):
        name = self.uniq(name)
        if lo == hi:
            self.inputs.append((name, "int", lo))
            return lo & ((1 << w) - 1)
        vs = frozenset((("b", name),))
        if lo >= 0 and hi.bit_length() < w:
            # narrow symbol, zero-extended
            k = hi.bit_length()
            u = z3.BitVec("b_" + name, k)
            v = z3.ZeroExt(w - k, u)
            cs = []
            if lo > 0:
                cs.append(z3.UGE(u, lo))
            if hi != (1 << k) - 1:
                cs.append(z3.ULE(u, hi))
            self.inputs.append((name, "bv", v))
            if cs:
                self.add(z3.And(*cs), vs)
        else:
            v = z3.BitVec("b_" + name, w)
            self.inputs.append((name, "bv", v))
            self.add(z3.And(v >= lo, v <= hi), vs)
        self.model = None
        return BV(v, w, vs)

    def new_uint(self, name, w):
        name = self.uniq(name)
        v = z3.BitVec("b_" + name, w)
        self.inputs.append((name, "ubv", v))
        return BV(v, w, frozenset((("b", name),)))

    def new_real(self, name, lo, hi):
        name = self.uniq(name)
        i = real.new_var(name)
        v = z3var(i)
        self.inputs.append((name, "real", i))
        self.bounds[i] = (Fraction(lo), Fraction(hi))
        flo, fhi = Fraction(lo), Fraction(hi)
        self.add(z3.And(v >= z3.Q(flo.numerator, flo.denominator),
                        v <= z3.Q(fhi.numerator, fhi.denominator)), frozenset((("r", i),)))
        self.model = None
        return RF.var(i)

    def uniq(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else "%s#%d" % (name, k)

    def assignment(self, m):
        """concrete inputs of a model"""
        out = []
        for name, kind, d in self.inputs:
            if kind == "int":
                out.append([name, "i", str(d)])
            elif kind == "bv":
                v = m.eval(d, model_completion=True).as_signed_long()
                out.append([name, "i", str(v)])
            elif kind == "ubv":
                v = m.eval(d, model_completion=True).as_long()
                out.append([name, "i", str(v)])
            else:
                fr = frac_of_z3(m.eval(z3var(d), model_completion=True))
                out.append([name, "r", repr(float(fr))])
        return out

    def get_model(self, extra=(), timeout=None):
        vs = frozenset()
        r, m = self.solve(list(extra), vs, full=True, timeout=timeout)
        return r, m

    def candidate(self, label, extra, vs=None):
        """a possible violation on this path: find concrete inputs"""
        models = []
        r, m = self.get_model([extra] if extra is not None else [])
        if r == "unsat":
            return False
        if r == "sat":
            models.append(self.assignment(m))
        else:
            m = self.sample_model([extra] if extra is not None else [])
            if m is not None:
                models.append(self.assignment(m))
        self.cands.append(dict(label=label, models=models))
        self.emit(dict(kind="cand", label=label, models=models))
        return True

    def models(self, label, n):
        """a possible violation by rounding: inputs on a fine grid"""
        r, m = self.get_model([])
        if r != "sat":
            m = self.sample_model([])
        out = []
        base = self.assignment(m) if m is not None else []
        kinds = {name: d for name, kind, d in self.inputs if kind == "real"}
        for k in range(n if base else 0):
            a = []
            for name, t, v in base:
                if name in kinds:
                    lo, hi = self.bounds[kinds[name]]
                    v = repr(float(lo) + (float(hi) - float(lo)) * self.rng.random())
                a.append([name, t, v])
            out.append(a)
        self.cands.append(dict(label=label, models=out))
        self.emit(dict(kind="cand", label=label, models=out))

    def sample_model(self, extra, tries=6):
        """help the solver: fix random inputs to random values"""
        reals = [d for n, k, d in self.inputs if k == "real"]
        for t in range(tries):
            fix = []
            for d in reals:
                if self.rng.random() < 0.5 + 0.08 * t:
                    lo, hi = self.bounds[d]
                    lo2, hi2 = max(lo, Fraction(-3)), min(hi, Fraction(3))
                    if lo2 > hi2:
                        lo2, hi2 = lo, hi
                    q = lo2 + (hi2 - lo2) * Fraction(self.rng.randrange(1, 16), 16)
                    fix.append(z3var(d) == z3.Q(q.numerator, q.denominator))
            r, m = self.get_model(list(extra) + fix, timeout=4000)
            if r == "sat":
                return m
        return None

    def check(self, b, label):
        self.checks.append(label)
        self.reached.add(label)
        if isinstance(b, UndefT):
            self.undef_used()
        if isinstance(b, int):
            if b & 1:
                self.tq += 1
                return
            self.candidate(label, None)
            raise PathEnd("violated", label)
        d = self.fact_decide(b)
        if d is True:
            self.tq += 1
            return
        nb = b.neg()
        r, m = self.solve([nb.e], b.vs)
        if r == "unsat":
            self.facts_only(b)
            return
        if r == "unknown":
            m = self.sample_model([nb.e])
            if m is None:
                self.undecided.append(label)
                self.emit(dict(kind="undecided", label=label))
                return
        self.candidate(label, nb.e)
        self.assume(b)

    def pbound(self, p):
        """upper bound of |p| from the variable boxes, None if unbounded"""
        tot = Fraction(0)
        for m, c in p.items():
            t = Fraction(abs(c))
            v = 0
            while m:
                e = m & real.EMASK
                if e:
                    if v not in self.bounds:
                        return None
                    lo, hi = self.bounds[v]
                    t *= max(abs(lo), abs(hi)) ** e
                m >>= real.BITS
                v += 1
            tot += t
        return tot

    def check_near(self, a, b, tol, label, rel=True):
        """|a-b| <= tol; exact identity is the normal case"""
        self.checks.append(label)
        self.reached.add(label)
        if isinstance(a, UndefT) or isinstance(b, UndefT):
            self.undef_used()
        if isinstance(a, float) and not isinstance(b, RF) or isinstance(b, float) and not isinstance(a, RF):
            bad = not (abs(float(a) - float(b)) <= tol)
            if bad:
                self.candidate(label, None)
                raise PathEnd("violated", label)
            self.tq += 1
            return
        if any(isinstance(x, float) and (x != x or abs(x) == float("inf")) for x in (a, b)):
            self.candidate(label, None)
            raise PathEnd("violated", label)
        d = a - b
        if not isinstance(d, RF):
            if abs(d) <= tol:
                self.tq += 1
                return
            self.candidate(label, None)
            raise PathEnd("violated", label)
        if not d.d:
            bd = self.pbound(d.n)
            if bd is not None and bd / d.dc <= tol:
                self.tq += 1
                return
        for t in (Fraction(1, 100), Fraction(tol)):
            up = self.fcmp(d, t, frozenset((1,)))
            dn = self.fcmp(d, -t, frozenset((-1,)))
            bad = up | dn
            if isinstance(bad, int):
                r, m = ("sat", None) if bad & 1 else ("unsat", None)
                ex = None
            else:
                ex = bad.e
                r, m = self.solve([bad.e], bad.vs)
            if r == "sat":
                self.candidate(label, ex)
                return
            if r == "unknown":
                m = self.sample_model([ex])
                if m is not None:
                    self.candidate(label, ex)
                    return
                if t == Fraction(tol):
                    self.undecided.append(label)
                    self.emit(dict(kind="undecided", label=label))
                    return

    def observe(self, m, wit):
        """sum of the observed values at the witness, to be compared with the
        same sum of the native run"""
        w = {a: c for a, _, c in wit}
        vals = {}
        for name, kind, d in self.inputs:
            if kind == "real":
                vals[d] = float(w[name])

        def var(i):
            v = vals.get(i)
            if v is None:
                if i in real.RULES:
                    v = max(ev(real.RULES[i]), 0.0) ** 0.5
                else:
                    v = float(frac_of_z3(m.eval(z3var(i), model_completion=True)))
                vals[i] = v
            return v

        def ev(p):
            t = 0.0
            for mo, c in p.items():
                x = float(c)
                v = 0
                while mo:
                    e = mo & real.EMASK
                    if e:
                        x *= var(v) ** e
                    mo >>= real.BITS
                    v += 1
                t += x
            return t
        s = mag = 0.0
        n = 0
        try:
            for a in self.obs:
                if isinstance(a, RF):
                    x = ev(a.n) / a.dc
                    for i, e in a.d.items():
                        x /= ev(real.FACTORS[i]) ** e
                else:
                    x = float(a)
                    if x != x or abs(x) == float("inf"):
                        continue
                s += x
                mag += abs(x)
                n += 1
        except (OverflowError, ZeroDivisionError, EngineError):
            return None
        return [s, mag, n]

    def finish(self, status, detail=""):
        """record the end of the current path and leave the process tree node"""
        wit = None
        obs = None
        if status in ("ok",):
            try:
                r, m = self.get_model(timeout=8000)
                if r == "unknown":
                    m = self.sample_model([], 3)
                    r = "sat" if m is not None else r
                if r == "sat":
                    wit = self.assignment(m)
                    obs = self.observe(m, wit)
                elif r == "unsat":
                    status = "infeasible"
            except (PathEnd, Inconclusive, EngineError):
                pass
        base = getattr(self, "checks_base", 0)
        self.emit(dict(kind="path", status=status, detail=detail, witness=wit, obs=obs,
                       checks=len(self.checks), newchecks=len(self.checks) - base,
                       trivial=self.tq, nq=self.nq, qtime=round(self.qtime, 3),
                       steps=self.steps[0] - getattr(self, "steps_base", 0), forks=self.forks,
                       undecided=self.undecided, reached=sorted(self.reached)[:400],
                       cands=[c["label"] for c in self.cands],
                       funcs=sorted(self.funcs_used - self.funcs_base),
                       ub=getattr(self, "undecided_branch", 0), slow=self.slowq[:10]))
        for pid in self.children:
            pass
        if self.owntoken:
            os.write(self.jobw, b"x")
            self.owntoken = False
        for pid in self.children:
            self.reap(pid)


POS, NEG = frozenset((1,)), frozenset((-1,))


class MemError(Exception):
    pass


E = Engine()
real.ENGINE = E


# ------------------------------------------------------------------ loads and stores

def _addr(a):
    if isinstance(a, int):
        return a
    return E.concretize(a)


def ld_sym(a, n):
    """load at a symbolic address: an if-then-else over the feasible cells, or
    None when the cells do not allow it (the address is then split by forking)"""
    if not isinstance(a, BV):
        return None
    vals = E.feasible(a, 96)
    if vals is None:
        return None
    if len(vals) == 1:
        return ld(vals[0], n)
    res = []
    for v in vals:
        o = E.objs.get(v >> SHIFT)
        if o is None:
            return None
        off = v - o.base
        if off + n > o.size:
            return None
        c = o.cells.get(off)
        x = c[0] if c is not None and c[1] == n else ld_slow(o, off, n)
        if type(x) is SB:
            x = BV(bvterm(x, 8 * n), 8 * n, x.vs)
        if not (type(x) is int or type(x) is BV and x.w == 8 * n):
            return None
        res.append(x)
    if all(type(x) is int and x == res[0] for x in res):
        return res[0]
    e = bvterm(res[-1], 8 * n)
    for v, x in zip(vals[:-1], res[:-1]):
        e = z3.If(a.e == v, bvterm(x, 8 * n), e)
    return bvres(e, 8 * n, a.vs | vs_of(*res))


def ld(a, n):
    """integer load of n bytes"""
    if type(a) is not int:
        r = ld_sym(a, n)
        if r is not None:
            return r
        a = _addr(a)
    o = E.objs.get(a >> SHIFT)
    if o is None:
        raise MemError("load from invalid address 0x%x" % a)
    off = a - o.base
    c = o.cells.get(off)
    if c is not None and c[1] == n:
        v = c[0]
        t = type(v)
        if t is int or t is BV:
            return v
        if t is Fraction or t is RF or t is float:
            return FPBits(v)
        return v
    return ld_slow(o, off, n)


def ldf(a, n):
    if type(a) is not int:
        a = _addr(a)
    o = E.objs.get(a >> SHIFT)
    if o is None:
        raise MemError("load from invalid address 0x%x" % a)
    off = a - o.base
    c = o.cells.get(off)
    if c is not None and c[1] == n:
        v = c[0]
        t = type(v)
        if t is Fraction or t is RF or t is float:
            return v
        if t is int:
            return bits_real(v, n)
        if t is FPBits or t is FPFlipped:
            return v.v
        if isinstance(v, UndefT):
            return v if t is DivZero else UNDEF
        raise EngineError("fp load of %r" % (v,))
    v = ld_slow(o, off, n)
    t = type(v)
    if t is int:
        return bits_real(v, n)
    if t is FPBits or t is FPFlipped:
        return v.v
    if isinstance(v, UndefT):
        return v if t is DivZero else UNDEF
    raise EngineError("fp load of symbolic integer")


def getbyte(o, k):
    c = o.cells.get(k)
    if c is not None:
        return bytefrom(c, 0)
    for j in range(1, 16):
        c = o.cells.get(k - j)
        if c is not None:
            if c[1] > j:
                return bytefrom(c, j)
            break
    if o.fills:
        for lo, hi, b in reversed(o.fills):
            if lo <= k < hi:
                return b
    return UNDEF


class DivZero(UndefT):
    """result of a division by zero; harmless unless something depends on it"""
    __slots__ = ()

    def __bool__(self):
        E.division_by_zero()


DIVZERO = E.divzero = DivZero()


class Bits(UndefT):
    """integer some of whose bits are undefined (bit fields): undefined bits u,
    other bits as in v"""
    __slots__ = ("u", "v")

    def __init__(self, u, v):
        self.u = u
        self.v = v

    def __and__(self, o):
        t = type(o)
        if t is int:
            return bits(self.u & o, self.v & o)
        if t is BV:
            return bits(self.u, self.v & o)
        if t is UndefT:
            o = Bits(-1, 0)
        elif t is not Bits:
            return UNDEF
        u = self.u | o.u
        for x in (self, o):
            if type(x.v) is int:
                u &= x.u | x.v
        return bits(u, self.v & o.v)
    __rand__ = __and__

    def __or__(self, o):
        t = type(o)
        if t is int:
            return bits(self.u & ~o, self.v | o)
        if t is BV:
            return bits(self.u, self.v | o)
        if t is UndefT:
            o = Bits(-1, 0)
        elif t is not Bits:
            return UNDEF
        u = self.u | o.u
        for x in (self, o):
            if type(x.v) is int:
                u &= ~(x.v & ~x.u)
        return bits(u, self.v | o.v)
    __ror__ = __or__

    def __xor__(self, o):
        t = type(o)
        if t is int or t is BV:
            return bits(self.u, self.v ^ o)
        return UNDEF
    __rxor__ = __xor__

    def shl(self, k, w):
        return bits((self.u << k) & ((1 << w) - 1), TR.shl(self.v, k, w))

    def lshr(self, k, w):
        return bits((self.u & ((1 << w) - 1)) >> k, TR.lshr(self.v, k, w))

    def trunc(self, w):
        return bits(self.u & ((1 << w) - 1), TR.trunc(self.v, w))

    def zext(self, w, w2):
        return bits(self.u & ((1 << w) - 1), TR.zext(self.v, w, w2))


def bits(u, v):
    if u == 0:
        return v
    if u == -1:
        return UNDEF
    return Bits(u, v & ~u if type(v) is int else v)


def _undef_and(self, o):
    return Bits(-1, 0) & o if type(o) is int else self


def _undef_or(self, o):
    return Bits(-1, 0) | o if type(o) is int else self


UndefT.__and__ = UndefT.__rand__ = _undef_and
UndefT.__or__ = UndefT.__ror__ = _undef_or


class Mix(UndefT):
    """integer some of whose bytes are undefined (padding copied along)"""
    __slots__ = ("bs",)

    def __init__(self, bs):
        self.bs = bs

    def _bytes(self, o):
        n = len(self.bs)
        if type(o) is int:
            return [(o >> (8 * k)) & 255 for k in range(n)]
        if type(o) is Mix and len(o.bs) == n:
            return o.bs
        if type(o) is BV and o.w == 8 * n:
            return [bytefrom((o, n), k) for k in range(n)]
        return None

    def __and__(self, o):
        b = self._bytes(o)
        if b is None:
            return UNDEF
        return join([_byteop(x, y, 0, 255) for x, y in zip(self.bs, b)])
    __rand__ = __and__

    def __or__(self, o):
        b = self._bytes(o)
        if b is None:
            return UNDEF
        return join([_byteop(x, y, 255, 0) for x, y in zip(self.bs, b)])
    __ror__ = __or__

    def shl(self, k):
        if k & 7:
            return UNDEF
        return join([0] * (k >> 3) + self.bs[:len(self.bs) - (k >> 3)])

    def lshr(self, k):
        if k & 7:
            return UNDEF
        return join(self.bs[k >> 3:] + [0] * (k >> 3))

    def trunc(self, w):
        if w & 7:
            r = join(self.bs[:w // 8 + 1])
            if isinstance(r, UndefT):
                return r
            if type(r) is int:
                return r & ((1 << w) - 1)
            if w == 1:
                return mkb(z3.Extract(0, 0, r.e) == 1, r.vs)
            return bvres(z3.Extract(w - 1, 0, r.e), w, r.vs)
        return join(self.bs[:w >> 3])

    def zext(self, w):
        if w & 7:
            return UNDEF
        return join(self.bs + [0] * ((w >> 3) - len(self.bs)))


def _byteop(x, y, absorbing, neutral):
    for u, v in ((x, y), (y, x)):
        if type(u) is int:
            if u == absorbing:
                return absorbing
            if u == neutral:
                return v
    return x & y if absorbing == 0 else x | y


def join(bs):
    """value of a list of bytes, least significant first"""
    if len(bs) == 1:
        return bs[0]
    if all(type(b) is int for b in bs):
        v = 0
        for b in reversed(bs):
            v = (v << 8) | b
        return v
    nu = sum(1 for b in bs if isinstance(b, UndefT))
    if nu == len(bs) and all(type(b) is UndefT for b in bs):
        return UNDEF
    if nu:
        return Mix(bs)
    vs = frozenset()
    parts = []
    for b in reversed(bs):
        if type(b) is int:
            parts.append(z3.BitVecVal(b, 8))
        else:
            parts.append(b.e)
            vs |= b.vs
    e = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    return bvres(e, 8 * len(bs), vs)


def bytefrom(c, j):
    v, n = c
    t = type(v)
    if t is Mix:
        return v.bs[j]
    if t is Bits:
        return v if n == 1 else v.lshr(8 * j, 8 * n).trunc(8) if j else v.trunc(8)
    if t is int:
        return (v >> (8 * j)) & 255
    if t is UndefT:
        return v
    if t is BV:
        if v.w < n * 8:
            e = z3.ZeroExt(n * 8 - v.w, v.e)
        else:
            e = v.e
        return bvres(z3.Extract(8 * j + 7, 8 * j, e), 8, v.vs)
    if t is SB:
        if j:
            return 0
        return BV(bvterm(v, 8), 8, v.vs)
    if t is FPBits or t is FPFlipped:
        v = v.v
        t = type(v)
    if t is Fraction or t is float:
        return (real_bits(v, n) >> (8 * j)) & 255
    raise EngineError("byte access to symbolic real")


def ld_slow(o, off, n):
    if off + n > o.size:
        raise MemError("load of %d bytes at offset %d of %s object '%s' of size %d" % (n, off, o.kind, o.name, o.size))
    return join([getbyte(o, off + k) for k in range(n)])


def st(a, v, n):
    if type(a) is not int:
        a = _addr(a)
    o = E.objs.get(a >> SHIFT)
    if o is None:
        raise MemError("store to invalid address 0x%x" % a)
    off = a - o.base
    cells = o.cells
    c = cells.get(off)
    if c is not None and c[1] == n:
        cells[off] = (v, n)
        return
    if off + n > o.size:
        raise MemError("store of %d bytes at offset %d of %s object '%s' of size %d" % (n, off, o.kind, o.name, o.size))
    if o.kind == "const":
        raise MemError("store to constant '%s'" % o.name)
    if cells:
        clear(o, off, n)
    cells[off] = (v, n)


def clear(o, off, n):
    """remove all cells in [off, off+n), splitting partially covered ones"""
    cells = o.cells
    for j in range(1, 16):
        c = cells.get(off - j)
        if c is not None:
            if c[1] > j:
                split(o, off - j)
            break
    if n <= 64 or n <= len(cells):
        rng = range(off, off + n)
        for k in rng:
            c = cells.get(k)
            if c is not None:
                if k + c[1] > off + n:
                    split(o, k)
                del cells[k]
    else:
        for k in [k for k in cells if off <= k < off + n]:
            c = cells.get(k)
            if k + c[1] > off + n:
                split(o, k)
            del cells[k]


def split(o, k):
    c = o.cells.pop(k)
    for j in range(c[1]):
        o.cells[k + j] = (bytefrom(c, j), 1)


def memcpy(dst, src, n):
    if type(n) is not int:
        n = E.concretize(n)
    if n == 0:
        return
    if type(dst) is not int:
        dst = _addr(dst)
    if type(src) is not int:
        src = _addr(src)
    so = E.objs.get(src >> SHIFT)
    do = E.objs.get(dst >> SHIFT)
    if so is None or do is None:
        raise MemError("memcpy with invalid address")
    s0 = src - so.base
    d0 = dst - do.base
    if s0 + n > so.size:
        raise MemError("memcpy reads beyond '%s'" % so.name)
    if d0 + n > do.size:
        raise MemError("memcpy writes beyond '%s'" % do.name)
    # collect
    items = []
    fills = []
    if so.fills:
        for lo, hi, b in so.fills:
            l, h = max(lo, s0), min(hi, s0 + n)
            if l < h:
                fills.append((l - s0 + d0, h - s0 + d0, b))
    sc = so.cells
    # cell straddling the beginning
    for j in range(1, 16):
        c = sc.get(s0 - j)
        if c is not None:
            if c[1] > j:
                split(so, s0 - j)
            break
    if n <= 2 * len(sc):
        ks = [k for k in range(s0, s0 + n) if k in sc]
    else:
        ks = sorted(k for k in sc if s0 <= k < s0 + n)
    if ks and ks[-1] + sc[ks[-1]][1] > s0 + n:
        k = ks[-1]
        split(so, k)
        ks = ks[:-1] + [k + j for j in range(s0 + n - k)]
    items = [(k - s0 + d0, sc[k]) for k in ks]
    full = sum(c[1] for _, c in items) == n
    if do.cells:
        clear(do, d0, n)
    if not full:
        if do.fills:
            nf = []
            for lo, hi, b in do.fills:
                if hi <= d0 or lo >= d0 + n:
                    nf.append((lo, hi, b))
                else:
                    if lo < d0:
                        nf.append((lo, d0, b))
                    if hi > d0 + n:
                        nf.append((d0 + n, hi, b))
            do.fills = nf
        if fills:
            do.fills = (do.fills or []) + fills
    dc = do.cells
    for k, c in items:
        dc[k] = c


def memset(dst, val, n):
    if type(n) is not int:
        n = E.concretize(n)
    if n == 0:
        return
    if type(dst) is not int:
        dst = _addr(dst)
    o = E.objs.get(dst >> SHIFT)
    if o is None:
        raise MemError("memset with invalid address")
    off = dst - o.base
    if off + n > o.size:
        raise MemError("memset beyond '%s'" % o.name)
    if o.cells:
        clear(o, off, n)
    if type(val) is int:
        if o.fills is None:
            o.fills = []
        elif len(o.fills) > 50:
            o.fills = [f for f in o.fills if not (off <= f[0] and f[1] <= off + n)]
        o.fills.append((off, off + n, val & 255))
    else:
        for k in range(n):
            o.cells[off + k] = (val, 1)


def cstr(a):
    s = b""
    while True:
        c = ld(a, 1)
        if c == 0:
            return s.decode("latin1")
        s += bytes([c])
        a += 1
