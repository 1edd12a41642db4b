"""Models of the functions outside the encoded code: C/C++ runtime, libm, and
the harness intrinsics (vp_*)."""
import math
import re
from fractions import Fraction

import core
from core import (E, BV, SB, RF, UNDEF, UndefT, FPBits, CxxThrow, PathEnd, MemError, EngineError,
                  ld, ldf, st, memcpy, memset, cstr)
import trans
import threads
import rounding
from trans import sgn, powi

STUBS = {}
TIER = 0
USED = set()


def stub(*names):
    def d(f):
        for n in names:
            STUBS[n] = f
        return f
    return d


def install(m):
    global M
    M = m
    m.stubs = STUBS
    m.stub_pattern = pattern


def pattern(n):
    if n.startswith("_ZSt20__throw_length_error") or n.startswith("_ZSt19__throw_logic_error") or \
            n.startswith("_ZSt24__throw_out_of_range_fmt") or n.startswith("_ZSt20__throw_out_of_range"):
        t = "_ZTISt12length_error" if "length" in n else ("_ZTISt12out_of_range" if "range" in n else "_ZTISt11logic_error")
        return lambda *a: M.raise_std(t)
    if n.startswith("_ZSt17__throw_bad_alloc"):
        return lambda *a: M.raise_std("_ZTISt9bad_alloc")
    if n.startswith("_ZSt28__throw_bad_array_new_length"):
        return lambda *a: M.raise_std("_ZTISt20bad_array_new_length")
    if n.startswith("_ZSt25__throw_bad_function_call"):
        return lambda *a: M.raise_std("_ZTISt17bad_function_call")
    if n in ("__cxa_bad_cast", "_ZSt16__throw_bad_castv"):
        return lambda *a: M.raise_std("_ZTISt8bad_cast")
    if n.startswith("_ZSt20__throw_system_error"):
        return lambda *a: M.raise_std("_ZTISt12system_error")
    if n.startswith("_ZNSt8ios_base4InitC") or n.startswith("_ZNSt8ios_base4InitD"):
        return lambda *a: None
    if n in ("_ZN4Dune9ExceptionC2Ev", "_ZN4Dune9ExceptionC1Ev"):
        def exc(a):
            # empty message: short string inside the object
            a = addr(a)
            core.st(a + 8, a + 24, 8)
            core.st(a + 16, 0, 8)
            core.st(a + 24, 0, 1)
        return exc
    if n.startswith("_ZN4Dune9Exception") or n.startswith("_ZNK4Dune9Exception"):
        return lambda *a: 0
    if re.match(r"_ZNSt\d+\w*_error[CD][012]", n):
        return lambda *a: None
    m = re.match(r"_ZNSt7__cxx11\d+(basic_ostringstream|basic_stringstream|basic_stringbuf)I.*C[12]E", n)
    if m:
        size = dict(basic_ostringstream=376, basic_stringstream=392, basic_stringbuf=104)[m.group(1)]
        def stream(a, *r):
            a = addr(a)
            memset(a, 0, size)
            if size != 104:
                M.fake_stream(a, size - 264)
            # its (empty) text
            t = a + {104: 72, 376: 80, 392: 96}[size]
            core.st(t, t + 16, 8)
            TEXT[a + (16 if size == 392 else 0)] = b""
        return stream
    if n.startswith(("_ZNSt7__cxx1119basic_ostringstreamI", "_ZNSt7__cxx1118basic_stringstreamI", "_ZNSt7__cxx1115basic_stringbufI",
                     "_ZNSt8ios_base", "_ZNSt6localeC", "_ZNSt6localeD", "_ZNSt9basic_iosI")):
        return lambda *a: 0
    if n.startswith(("_ZNKSt7__cxx1119basic_ostringstreamI", "_ZNKSt7__cxx1118basic_stringstreamI", "_ZNKSt7__cxx1115basic_stringbufI")) and "3str" in n:
        # the buffer of the stream, as the inlined version reads it
        off = 16 if n.startswith("_ZNKSt7__cxx1118") else 0
        def text(s, a=0, *r):
            s = addr(s)
            t = TEXT.get(addr(a) + off) or b""
            d = s + 16 if len(t) < 16 else E.alloc(len(t) + 1, "_Znwm", "heap")
            core.st(s, d, 8)
            core.st(s + 8, len(t), 8)
            if len(t) >= 16:
                core.st(s + 16, len(t), 8)
            for k, c in enumerate(t + b"\0"):
                core.st(d + k, c, 1)
        return text
    put = inserter(n)
    if put:
        def insert(a, *r):
            k = a if type(a) is int else None
            t = TEXT.get(k)
            if t is not None:
                try:
                    t += put(*r)
                except (TypeError, ValueError):
                    t = None
                TEXT[k] = t
                # an unknown text is shown as empty
                d = 0
                if t is not None:
                    d = E.alloc(len(t) + 1, "text of a stream", "heap")
                    for i, c in enumerate(t):
                        core.st(d + i, c, 1)
                core.st(k + 40, d, 8)
                core.st(k + 48, d + len(t or b""), 8)
            return a
        return insert
    if n.startswith(("_ZNSo", "_ZStls", "_ZSt16__ostream_insert", "_ZSt4endl", "_ZSt5flush", "_ZNSi")):
        return lambda a, *r: a
    if n.startswith(("_ZNSt9exceptionD", "_ZNSt9exceptionC", "_ZNSt11logic_errorC", "_ZNSt11logic_errorD",
                     "_ZNSt12out_of_rangeC", "_ZNSt13runtime_errorC", "_ZNSt13runtime_errorD",
                     "_ZNSt12out_of_rangeD", "_ZNSt16invalid_argumentC", "_ZNSt16invalid_argumentD",
                     "_ZNSt12length_errorC", "_ZNSt12length_errorD")):
        return lambda *a: None
    if n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "free"):
        return lambda a, *r: E.free(addr(a))
    if n in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
        return lambda s, *r: E.alloc(E.concretize(s), n, "heap")
    return None


# text written to string streams so far, by address; None: unknown
TEXT = {}


def known(v, bits):
    if type(v) is not int:
        raise ValueError
    return v & ((1 << bits) - 1)


def inserter(n):
    """the bytes that an insertion into a stream appends"""
    if re.match(r"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc$", n):
        return lambda p: core.cstr(known(p, 64)).encode("latin1")
    if n.startswith("_ZSt16__ostream_insertIcSt11char_traitsIcEE"):
        return lambda p, l: bytes(known(core.ld(known(p, 64) + k, 1), 8) for k in range(known(l, 64)))
    if re.match(r"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_[cah]$|_ZNSo3putEc$", n):
        return lambda c: bytes([known(c, 8)])
    m = re.match(r"_ZNSo(?:lsE|9_M_insertI)([ijlmstxy])(?:EERSoT_)?$", n)
    if m:
        bits = dict(i=32, j=32, l=64, m=64, s=16, t=16, x=64, y=64)[m.group(1)]
        def number(v):
            v = known(v, bits)
            if m.group(1) in "ilsx" and v >> bits - 1:
                v -= 1 << bits
            return str(v).encode()
        return number
    if n.startswith(("_ZNSolsE", "_ZNSo9_M_insert", "_ZNSo5write", "_ZStls", "_ZSt4endl")):
        def unknown(*r):
            raise ValueError
        return unknown
    return None


def addr(a):
    return a if type(a) is int else E.concretize(a)


# ------------------------------------------------------------------ C runtime

@stub("calloc")
def _(n, s, *r):
    sz = E.concretize(n) * E.concretize(s)
    a = E.alloc(sz, "calloc", "heap")
    memset(a, 0, sz)
    return a


@stub("memcpy", "memmove")
def _(d, s, n, *r):
    memcpy(d, s, n)
    return d


@stub("memset")
def _(d, v, n, *r):
    memset(d, v, n)
    return d


@stub("memcmp", "bcmp")
def _(a, b, n, *r):
    a, b, n = addr(a), addr(b), E.concretize(n)
    for k in range(n):
        x, y = ld(a + k, 1), ld(b + k, 1)
        eq = trans.ieq(x, y)
        if not (eq if isinstance(eq, int) else E.decide(eq)):
            lt = +(x < y)
            return 0xffffffff if (lt if isinstance(lt, int) else E.decide(lt)) else 1
    return 0


@stub("memchr")
def _(a, c, n, *r):
    a, n, c = addr(a), E.concretize(n), E.concretize(c) & 255
    for k in range(n):
        if E.concretize(ld(a + k, 1)) == c:
            return a + k
    return 0


@stub("strlen")
def _(a, *r):
    n = 0
    a = addr(a)
    while E.concretize(ld(a + n, 1)) != 0:
        n += 1
    return n


@stub("strcmp")
def _(a, b, *r):
    x, y = cstr(addr(a)), cstr(addr(b))
    return 0 if x == y else (1 if x > y else 0xffffffff)


@stub("abort")
def _(*r):
    E.candidate("abort() called", None)
    raise PathEnd("abort")


@stub("__assert_fail")
def _(msg, file, line, fn, *r):
    s = cstr(addr(msg))
    E.candidate("assertion failed: " + s[:100], None)
    raise PathEnd("assert")


GUARDS = set()      # guards of local statics that were initialised
RUNNING = []        # once-only regions that are being executed


def sync(kind, a):
    if threads.TR is not None:
        threads.TR.event(kind, addr(a))


def running(a):
    if a in RUNNING:
        E.candidate("termination: initialisation that waits for itself", None)
        raise PathEnd("violated", "recursive initialisation")
    RUNNING.append(a)


@stub("__cxa_guard_acquire")
def _(g, *r):
    g = addr(g)
    if core.ld(g, 1):
        sync("done", g)
        return 0
    running(g)
    sync("enter", g)
    return 1


@stub("__cxa_guard_release")
def _(g, *r):
    g = addr(g)
    core.st(g, 1, 1)
    GUARDS.add(g)
    RUNNING.remove(g)
    sync("exit", g)


@stub("__cxa_guard_abort")
def _(g, *r):
    RUNNING.remove(addr(g))
    sync("exit", g)


@stub("pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_mutex_trylock", "pthread_rwlock_trywrlock")
def _(a, *r):
    sync("lock", a)
    return 0


@stub("pthread_rwlock_rdlock", "pthread_rwlock_tryrdlock")
def _(a, *r):
    sync("rlock", a)
    return 0


@stub("pthread_mutex_unlock", "pthread_rwlock_unlock")
def _(a, *r):
    sync("unlock", a)
    return 0


@stub("__cxa_atexit", "__cxa_thread_atexit", "pthread_rwlock_init", "pthread_rwlock_destroy", "atexit",
      "pthread_mutex_init", "pthread_mutex_destroy", "_ZN4Dune16doAssertCallOnceEPKciS1_")
def _(*r):
    return 0


@stub("pthread_once", "__gthrw_pthread_once")
def _(flag, fn, *r):
    flag = addr(flag)
    if core.ld(flag, 4):
        sync("done", flag)
        return 0
    running(flag)
    sync("enter", flag)
    try:
        name = M.fbyaddr.get(addr(fn))
        if name == "__once_proxy":
            p = core.ld(M.ext_global("_ZSt11__once_call"), 8)
            M.icall(p)
        else:
            M.icall(fn)
        core.st(flag, 2, 4)
    finally:
        if RUNNING and RUNNING[-1] == flag:
            RUNNING.pop()
        sync("exit", flag)
    return 0


@stub("vp_threads")
def _(f, a, g, b, *r):
    threads.run(M, f, a, g, b)


@stub("__once_proxy")
def _(*r):
    M.icall(ld(M.ext_global("_ZSt11__once_call"), 8))


@stub("_ZTWSt11__once_call", "_ZTHSt11__once_call")
def _(*r): return M.ext_global("_ZSt11__once_call")


@stub("_ZTWSt15__once_callable", "_ZTHSt15__once_callable")
def _(*r): return M.ext_global("_ZSt15__once_callable")


@stub("pthread_key_create", "__pthread_key_create", "__libc_single_threaded")
def _(*r): return 0


# ------------------------------------------------------------------ exceptions

@stub("__cxa_allocate_exception")
def _(n, *r):
    return E.alloc(E.concretize(n) + 16, "exception", "exc")


@stub("__cxa_free_exception")
def _(p, *r):
    return None


CAUGHT = []


@stub("__cxa_throw")
def _(p, t, d, *r):
    raise CxxThrow(p, addr(t))


@stub("__cxa_begin_catch")
def _(ex, *r):
    CAUGHT.append(ex)
    return ex.ptr


@stub("__cxa_get_exception_ptr")
def _(ex, *r):
    return ex.ptr


@stub("__cxa_end_catch")
def _(*r):
    if CAUGHT:
        CAUGHT.pop()


@stub("__cxa_rethrow")
def _(*r):
    ex = CAUGHT[-1]
    raise ex


@stub("_Unwind_Resume")
def _(ex, *r):
    raise ex


@stub("_ZSt9terminatev", "__clang_call_terminate", "__cxa_call_unexpected")
def _(*r):
    E.candidate("std::terminate called", None)
    raise PathEnd("terminate")


@stub("__cxa_pure_virtual")
def _(*r):
    E.candidate("pure virtual call", None)
    raise PathEnd("abort")


@stub("_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv")
def _(*r): return 0


@stub("__dynamic_cast")
def _(p, src, dst, hint, *r):
    p = addr(p)
    vt = ld(p, 8)
    ti = ld(vt - 8, 8)
    off = sgn(ld(vt - 16, 8), 64)
    whole = p + off
    # search dst in the hierarchy of ti; offsets of non-virtual bases
    def find(t, o):
        if t == dst:
            return o
        obj = E.objs.get(t >> core.SHIFT)
        if obj is None or not obj.cells:
            return None
        v = ld(t, 8)
        vo = E.objs.get(v >> core.SHIFT)
        if "__si_class" in vo.name:
            return find(ld(t + 16, 8), o)
        if "__vmi_class" in vo.name:
            for i in range(ld(t + 20, 4)):
                fl = sgn(ld(t + 24 + 16 * i + 8, 8), 64)
                if fl & 1:
                    raise EngineError("dynamic_cast with virtual bases")
                x = find(ld(t + 24 + 16 * i, 8), o + (fl >> 8))
                if x is not None:
                    return x
        return None
    o = find(ti, 0)
    return 0 if o is None else whole + o


# ------------------------------------------------------------------ std::map / set (libstdc++ tree helpers)
# node layout: colour@0, parent@8, left@16, right@24; the tree is kept as an
# unbalanced search tree, which is enough for in-order semantics

def P(n): return ld(n + 8, 8)
def Lf(n): return ld(n + 16, 8)
def Rt(n): return ld(n + 24, 8)


@stub("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
def _(left, x, p, h, *r):
    left = E.concretize(left) & 1
    st(x + 8, p, 8)
    st(x + 16, 0, 8)
    st(x + 24, 0, 8)
    st(x, 1, 4)
    if left:
        st(p + 16, x, 8)
        if p == h:
            st(h + 8, x, 8)
            st(h + 24, x, 8)
        elif p == Lf(h):
            st(h + 16, x, 8)
    else:
        st(p + 24, x, 8)
        if p == Rt(h):
            st(h + 24, x, 8)


def isheader(n):
    # header: parent of the root's parent; root->parent == header and header->parent == root
    return False


@stub("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
def _(x, *r):
    if Rt(x):
        x = Rt(x)
        while Lf(x):
            x = Lf(x)
        return x
    y = P(x)
    while x == Rt(y):
        x = y
        y = P(y)
    if Rt(x) != y:
        x = y
    return x


@stub("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
def _(x, *r):
    # the header is red and is its root's parent
    if ld(x, 4) == 0 and P(P(x)) == x:
        return Rt(x)
    if Lf(x):
        y = Lf(x)
        while Rt(y):
            y = Rt(y)
        return y
    y = P(x)
    while x == Lf(y):
        x = y
        y = P(y)
    return y


# ------------------------------------------------------------------ libm

def _conc(a):
    if isinstance(a, (RF, UndefT)):
        raise EngineError("transcendental function of a symbolic real")
    return float(a)


def _r(x):
    return x if E.ieee else Fraction(x)


for _n, _f in (("sin", math.sin), ("cos", math.cos), ("tan", math.tan), ("exp", math.exp), ("log", math.log),
               ("acos", math.acos), ("asin", math.asin), ("atan", math.atan), ("tgamma", math.gamma),
               ("lgamma", math.lgamma), ("exp2", lambda x: 2.0 ** x), ("log2", math.log2), ("log10", math.log10),
               ("cbrt", lambda x: math.copysign(abs(x) ** (1 / 3), x))):
    STUBS[_n] = (lambda a, *r, f=_f: _r(f(_conc(a))))
    trans.INTRINSICS[_n] = (lambda w, a, f=_f: _r(f(_conc(a))))


@stub("sqrt", "sqrtf", "sqrtl")
def _(a, *r): return E.sqrt(a)


@stub("hypot", "hypotf", "hypotl")
def _(a, b, *r): return E.sqrt(a * a + b * b)


@stub("fma", "fmaf", "fmal")
def _(a, b, c, *r): return a * b + c


@stub("copysign", "copysignf", "copysignl")
def _(a, b, *r): return trans.INTRINSICS["copysign"](None, a, b)


@stub("ldexp", "scalbn", "scalbln")
def _(a, n, *r):
    n = E.concretize(n) & 0xffffffff
    n = n - (1 << 32) if n >> 31 else n
    f = Fraction(2) ** n
    return float(a) * float(f) if isinstance(a, float) else a * f


@stub("fabs", "fabsf", "fabsl")
def _(a, *r): return E.fabs(a)


@stub("pow", "powf", "powl")
def _(a, b, *r): return trans.INTRINSICS["pow"](None, a, b)


@stub("floor")
def _(a, *r): return trans.INTRINSICS["floor"](None, a)


@stub("ceil")
def _(a, *r): return trans.INTRINSICS["ceil"](None, a)


@stub("round")
def _(a, *r): return trans.INTRINSICS["round"](None, a)


@stub("lround", "llround")
def _(a, *r): return int(trans.INTRINSICS["round"](None, a)) & ((1 << 64) - 1)


@stub("fmax")
def _(a, b, *r): return trans.INTRINSICS["maxnum"](None, a, b)


@stub("fmin")
def _(a, b, *r): return trans.INTRINSICS["minnum"](None, a, b)


@stub("fmod")
def _(a, b, *r): return trans.fr(a, b)


# ------------------------------------------------------------------ harness intrinsics

def _s(p):
    return cstr(addr(p))


@stub("vp_int")
def _(name, lo, hi, *r):
    lo, hi = sgn(lo, 64), sgn(hi, 64)
    return E.new_int(_s(name), 64, lo, hi)


@stub("vp_choose")
def _(name, lo, hi, *r):
    lo, hi = sgn(E.concretize(lo), 64), sgn(E.concretize(hi), 64)
    if lo > hi:
        raise PathEnd("infeasible")
    return E.choose(_s(name), lo, hi) & ((1 << 64) - 1)


@stub("vp_u64")
def _(name, *r):
    return E.new_uint(_s(name), 64)


@stub("vp_real")
def _(name, lo, hi, *r):
    return E.new_real(_s(name), lo, hi)


@stub("vp_conc")
def _(x, *r):
    return E.concretize(x)


@stub("vp_assume")
def _(c, *r):
    E.assume(tobool(c))


def tobool(c):
    if isinstance(c, BV):
        return c != 0
    if isinstance(c, int):
        return 1 if c else 0
    return c


@stub("vp_assume_pos")
def _(a, *r):
    E.assume(E.fcmp(a, Fraction(0), frozenset((1,))))


@stub("vp_assume_ge")
def _(a, b, *r):
    E.assume(E.fcmp(a, b, frozenset((0, 1))))


@stub("vp_check")
def _(c, label, *r):
    E.check(tobool(c), _s(label))


@stub("vp_eqi")
def _(a, b, label, *r):
    E.check(trans.ieq(a, b), _s(label))


@stub("vp_eq")
def _(a, b, label, *r):
    E.obs.append(a)
    E.check_near(a, b, EQTOL, _s(label))


EQTOL = Fraction(1, 10**6)


@stub("vp_near")
def _(a, b, tol, label, *r):
    E.obs.append(a)
    E.check_near(a, b, Fraction(tol), _s(label))


@stub("vp_rounding")
def _(on, *r):
    rounding.ON = bool(on & 1)


@stub("vp_round")
def _(a, b, tol, label, *r):
    E.obs.append(a)
    rounding.check(a, b, tol, _s(label))


@stub("vp_le")
def _(a, b, label, *r):
    """a <= b up to 1e-6"""
    E.check(E.fcmp(a - b, EQTOL, frozenset((-1, 0))), _s(label))


@stub("vp_lt")
def _(a, b, label, *r):
    E.check(E.fcmp(a, b, frozenset((-1,))), _s(label))


@stub("vp_fail")
def _(label, *r):
    l = _s(label)
    E.checks.append(l)
    E.candidate(l, None)
    raise PathEnd("violated", l)


@stub("vp_reach")
def _(label, *r):
    E.reached.add(_s(label))


@stub("vp_skip")
def _(*r):
    raise PathEnd("infeasible")


@stub("vp_done")
def _(*r):
    raise PathEnd("ok")


@stub("vp_tier")
def _(*r):
    return TIER


@stub("vp_native")
def _(*r):
    return 0


@stub("vp_fresh")
def _(*r):
    return 0


@stub("vp_note")
def _(label, v, *r):
    import sys
    print("NOTE", _s(label), v, file=sys.stderr)
