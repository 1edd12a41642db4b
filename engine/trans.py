"""Translation of LLVM IR functions into Python functions over symbolic values."""
import ctypes
import sys
import time
from fractions import Fraction

import z3

import core
import llvmc as L
import real
from core import (E, BV, SB, RF, UNDEF, UndefT, FPBits, CxxThrow, PathEnd, MemError, EngineError,
                  ld, ldf, st, memcpy, memset, bvres, bvterm, vs_of)

_attr_kind = L.fn("LLVMGetEnumAttributeKindForName", L.u, L.cp, ctypes.c_size_t)
_callsite_attr = L.fn("LLVMGetCallSiteEnumAttribute", L.vp, L.vp, L.u, L.u)
_attr_type = L.fn("LLVMGetTypeAttributeValue", L.vp, L.vp)
BYVAL = _attr_kind(b"byval", 5)


core.TR = sys.modules[__name__]


# ------------------------------------------------------------------ integer helpers

def shl(a, b, w):
    if type(b) is int:
        if b >= w:
            return UNDEF
        if type(a) is int:
            return (a << b) & ((1 << w) - 1)
        if type(a) is core.Mix:
            return a.shl(b)
        if type(a) is core.Bits:
            return a.shl(b, w)
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        return UNDEF
    return bvres(bvterm(a, w) << bvterm(b, w), w, vs_of(a, b))


def lshr(a, b, w):
    if type(b) is int:
        if b >= w:
            return UNDEF
        if type(a) is int:
            return a >> b
        if type(a) is core.Mix:
            return a.lshr(b)
        if type(a) is core.Bits:
            return a.lshr(b, w)
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        return UNDEF
    if isinstance(a, FPBits) or isinstance(b, FPBits):
        if b == w - 1 and isinstance(a.v, RF):
            return zext(E.fcmp(a.v, Fraction(0), frozenset((-1,))), 1, w)
        return lshr(fpint(a), fpint(b), w)
    return bvres(z3.LShR(bvterm(a, w), bvterm(b, w)), w, vs_of(a, b))


def ashr(a, b, w):
    if type(b) is int:
        if b >= w:
            return UNDEF
        if type(a) is int:
            if a >> (w - 1):
                a -= 1 << w
            return (a >> b) & ((1 << w) - 1)
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        return UNDEF
    return bvres(bvterm(a, w) >> bvterm(b, w), w, vs_of(a, b))


def sgn(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def nz(b, w):
    """divisor must not be zero"""
    if type(b) is int:
        if b == 0:
            E.candidate("integer division by zero", None)
            raise PathEnd("divzero")
    else:
        if not E.decide_or_int(b != 0):
            E.candidate("integer division by zero", None)
            raise PathEnd("divzero")


def _decide_or_int(self, b):
    return (b & 1) if isinstance(b, int) else self.decide(b)


core.Engine.decide_or_int = _decide_or_int


def udiv(a, b, w):
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        return UNDEF
    nz(b, w)
    if type(a) is int and type(b) is int:
        return a // b
    return bvres(z3.UDiv(bvterm(a, w), bvterm(b, w)), w, vs_of(a, b))


def urem(a, b, w):
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        return UNDEF
    nz(b, w)
    if type(a) is int and type(b) is int:
        return a % b
    return bvres(z3.URem(bvterm(a, w), bvterm(b, w)), w, vs_of(a, b))


def sdiv(a, b, w):
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        return UNDEF
    nz(b, w)
    if type(a) is int and type(b) is int:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & ((1 << w) - 1)
    return bvres(bvterm(a, w) / bvterm(b, w), w, vs_of(a, b))


def srem(a, b, w):
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        return UNDEF
    nz(b, w)
    if type(a) is int and type(b) is int:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & ((1 << w) - 1)
    return bvres(z3.SRem(bvterm(a, w), bvterm(b, w)), w, vs_of(a, b))


def zext(a, w, w2):
    if type(a) is int:
        return a
    if isinstance(a, UndefT):
        if type(a) is core.Bits:
            return a.zext(w, w2)
        return a.zext(w2) if type(a) is core.Mix else a
    if isinstance(a, SB):
        return BV(bvterm(a, w2), w2, a.vs)
    if isinstance(a, FPBits):
        return fpint(a)
    return bvres(z3.ZeroExt(w2 - w, a.e), w2, a.vs)


def sext(a, w, w2):
    if type(a) is int:
        return (a - (1 << w)) & ((1 << w2) - 1) if a >> (w - 1) else a
    if isinstance(a, UndefT):
        return a
    if isinstance(a, SB):
        return BV(z3.If(a.e, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2)), w2, a.vs)
    return bvres(z3.SignExt(w2 - w, a.e), w2, a.vs)


def trunc(a, w):
    if type(a) is int:
        return a & ((1 << w) - 1)
    if isinstance(a, UndefT):
        return a.trunc(w) if type(a) is core.Mix or type(a) is core.Bits else a
    if isinstance(a, FPBits):
        return fpint(a) & ((1 << w) - 1)
    if w == 1:
        return core.mkb(z3.Extract(0, 0, a.e) == 1, a.vs)
    return bvres(z3.Extract(w - 1, 0, a.e), w, a.vs)


def select(c, a, b):
    if type(c) is int:
        return a if c & 1 else b
    if isinstance(c, list):
        return [select(x, y, z) for x, y, z in zip(c, a, b)]
    if isinstance(c, UndefT):
        return UNDEF
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta is int and tb is int and a == b:
        return a
    if ta is BV or tb is BV:
        if (ta is BV or ta is int) and (tb is BV or tb is int):
            w = a.w if ta is BV else b.w
            return bvres(z3.If(c.e, bvterm(a, w), bvterm(b, w)), w, c.vs | vs_of(a, b))
    return a if E.decide(c) else b


def select_i(c, a, b, w):
    """select on integers of width w"""
    if type(c) is int:
        return a if c & 1 else b
    if isinstance(c, UndefT):
        return UNDEF
    ta, tb = type(a), type(b)
    if (ta is int or ta is BV or ta is SB) and (tb is int or tb is BV or tb is SB):
        if w == 1:
            x = a.e if ta is SB else z3.BoolVal(bool(a & 1))
            y = b.e if tb is SB else z3.BoolVal(bool(b & 1))
            return core.mkb(z3.If(c.e, x, y), c.vs | vs_of(a, b))
        if ta is int and tb is int and a == b:
            return a
        return bvres(z3.If(c.e, bvterm(a, w), bvterm(b, w)), w, c.vs | vs_of(a, b))
    return a if E.decide(c) else b


def ieq(a, b):
    if isinstance(a, FPBits) or isinstance(b, FPBits):
        a, b = fpint(a), fpint(b)
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        return UNDEF
    return +(a == b)


def fpint(a):
    if isinstance(a, FPBits):
        v = a.v
        if isinstance(v, (Fraction, float)):
            return core.real_bits(v, 8)
        raise EngineError("integer operation on symbolic real bits")
    return a


def fdiv(a, b):
    if isinstance(a, RF) or isinstance(b, RF):
        return a / b
    if isinstance(b, UndefT) or isinstance(a, UndefT):
        return core.DIVZERO if a is core.DIVZERO or b is core.DIVZERO else UNDEF
    if b == 0:
        if E.ieee:
            if a == 0:
                return float("nan")
            return float("inf") if a > 0 else float("-inf")
        return core.DIVZERO
    if isinstance(a, float) != isinstance(b, float):
        if isinstance(a, float) and abs(a) == float("inf") or isinstance(b, float) and abs(b) == float("inf"):
            return float(a) / float(b)
        a, b = Fraction(a), Fraction(b)
    return a / b


def bitcast_fi(a, n):
    if isinstance(a, (Fraction, float)):
        return core.real_bits(a, n)
    if isinstance(a, UndefT):
        return a
    return FPBits(a)


def bitcast_if(a, n):
    if isinstance(a, FPBits):
        return a.v
    if isinstance(a, UndefT):
        return a
    if type(a) is int:
        return core.bits_real(a, n)
    raise EngineError("symbolic bits to real")


def fptrunc(a):
    if isinstance(a, float):
        import struct
        return struct.unpack("<f", struct.pack("<f", a))[0]
    return a


def fr(a, b):
    """frem"""
    if isinstance(a, RF) or isinstance(b, RF):
        raise EngineError("frem on symbolic")
    import math
    if isinstance(a, float):
        return math.fmod(a, b)
    q = int(a / b)
    return a - q * b


# ------------------------------------------------------------------ module

class Module:
    def __init__(self, path):
        self.mod = L.load(path)
        self.dl = L.GetModuleDataLayout(self.mod)
        self.funcs = {}           # llvm value -> name
        self.byname = {}
        f = L.GetFirstFunction(self.mod)
        while f:
            n = L.name(f)
            self.funcs[f] = n
            self.byname[n] = f
            f = L.GetNextFunction(f)
        self.globals = {}
        g = L.GetFirstGlobal(self.mod)
        while g:
            self.globals[L.name(g)] = g
            g = L.GetNextGlobal(g)
        self.gaddr = {}
        self.faddr = {}
        self.fbyaddr = {}
        self.py = {}              # function name -> python callable
        self.consts = {}
        self.stubs = {}
        self.typeids = {}
        self.tsize = {}
        self.kind = {}
        self.ns = dict(
            E=E, ld=ld, lda=ld, ldf=ldf, st=st, sta=st, memcpy=memcpy, memset=memset, shl=shl, lshr=lshr, ashr=ashr,
            udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, zext=zext, sext=sext, trunc=trunc, select=select,
            select_i=select_i, ieq=ieq, fdiv=fdiv, bitcast_fi=bitcast_fi, bitcast_if=bitcast_if, fr=fr, fptrunc=fptrunc,
            UNDEF=UNDEF, CxxThrow=CxxThrow, PathEnd=PathEnd, M=self, T=E.steps, FPBits=FPBits,
            icall=self.icall, landing=self.landing, unsupported=self.unsupported, conc=E.concretize)
        self.translated = 0
        self.rounding = False

    # ---- types
    def tk(self, t):
        k = self.kind.get(t)
        if k is None:
            k = self.kind[t] = L.GetTypeKind(t)
        return k

    def size(self, t):
        s = self.tsize.get(t)
        if s is None:
            s = self.tsize[t] = L.ABISizeOfType(self.dl, t)
        return s

    def ssize(self, t):
        return L.StoreSizeOfType(self.dl, t)

    # ---- addresses
    def func_addr(self, f):
        n = self.funcs.get(f) or L.name(f)
        a = self.faddr.get(n)
        if a is None:
            a = E.alloc(1, n, "func")
            self.faddr[n] = a
            self.fbyaddr[a] = n
        return a

    def glob_addr(self, g):
        n = L.name(g)
        a = self.gaddr.get(n)
        if a is not None:
            return a
        t = L.GlobalGetValueType(g)
        if L.IsDeclaration(g):
            a = E.alloc(4096, n, "global")
            self.gaddr[n] = a
            E.objs[a >> core.SHIFT].fills = [(0, 4096, 0)]
            self.external_data(n, a)
            return a
        sz = self.size(t)
        a = E.alloc(sz, n, "global")
        self.gaddr[n] = a
        init = L.GetInitializer(g)
        if init:
            self.store_const(a, init)
        return a

    def store_const(self, a, c):
        k = L.GetValueKind(c)
        t = L.TypeOf(c)
        tk = self.tk(t)
        if k in (L.K_UNDEF, L.K_POISON):
            return
        if k == L.K_CAZ or (k == L.K_NULL and tk != L.T_PTR):
            memset(a, 0, self.size(t))
            return
        if tk == L.T_STRUCT:
            memset(a, 0, self.size(t))
            for i in range(L.CountStructElementTypes(t)):
                self.store_const(a + L.OffsetOfElement(self.dl, t, i), L.GetAggregateElement(c, i))
            return
        if tk in (L.T_ARRAY, L.T_VECTOR):
            n = L.GetArrayLength2(t) if tk == L.T_ARRAY else L.GetVectorSize(t)
            es = self.size(L.GetElementType(t))
            for i in range(n):
                self.store_const(a + i * es, L.GetAggregateElement(c, i))
            return
        st(a, self.const(c), self.ssize(t))

    def const(self, v):
        """python value of a constant"""
        k = L.GetValueKind(v)
        if k == L.K_CINT:
            w = L.GetIntTypeWidth(L.TypeOf(v))
            if w > 64:
                s = L.show(v).split()[-1]
                return int(s) & ((1 << w) - 1)
            return L.ConstIntGetZExtValue(v)
        if k == L.K_CFP:
            lossy = ctypes.c_int()
            f = L.ConstRealGetDouble(v, ctypes.byref(lossy))
            return E.fpconst(f)
        if k == L.K_NULL:
            return 0
        if k == L.K_FUNC:
            return self.func_addr(v)
        if k == L.K_GVAR:
            return self.glob_addr(v)
        if k == L.K_ALIAS:
            return self.const(L.AliasGetAliasee(v))
        if k in (L.K_UNDEF, L.K_POISON):
            t = L.TypeOf(v)
            tk = self.tk(t)
            if tk == L.T_STRUCT:
                return [UNDEF] * L.CountStructElementTypes(t)
            if tk in (L.T_ARRAY, L.T_VECTOR):
                n = L.GetArrayLength2(t) if tk == L.T_ARRAY else L.GetVectorSize(t)
                return [UNDEF] * n
            return UNDEF
        t = L.TypeOf(v)
        tk = self.tk(t)
        if k == L.K_CAZ:
            return self.zero(t)
        if tk == L.T_STRUCT:
            return [self.const(L.GetAggregateElement(v, i)) for i in range(L.CountStructElementTypes(t))]
        if tk in (L.T_ARRAY, L.T_VECTOR) and k != L.K_CEXPR:
            n = L.GetArrayLength2(t) if tk == L.T_ARRAY else L.GetVectorSize(t)
            return [self.const(L.GetAggregateElement(v, i)) for i in range(n)]
        if k == L.K_CEXPR:
            return self.cexpr(v)
        raise EngineError("constant " + L.show(v)[:200])

    def zero(self, t):
        tk = self.tk(t)
        if tk in (L.T_FLOAT, L.T_DOUBLE, L.T_FP80):
            return E.fpconst(0.0)
        if tk in (L.T_INT, L.T_PTR):
            return 0
        if tk == L.T_STRUCT:
            return [self.zero(L.StructGetTypeAtIndex(t, i)) for i in range(L.CountStructElementTypes(t))]
        n = L.GetArrayLength2(t) if tk == L.T_ARRAY else L.GetVectorSize(t)
        return [self.zero(L.GetElementType(t)) for _ in range(n)]

    def cexpr(self, v):
        op = L.GetConstOpcode(v)
        if op == L.GEP:
            base = self.const(L.GetOperand(v, 0))
            off = 0
            t = L.GetGEPSourceElementType(v)
            n = L.GetNumOperands(v)
            for i in range(1, n):
                idx = L.GetOperand(v, i)
                w = L.GetIntTypeWidth(L.TypeOf(idx))
                iv = sgn(self.const(idx), w)
                if i == 1:
                    off += iv * self.size(t)
                elif self.tk(t) == L.T_STRUCT:
                    off += L.OffsetOfElement(self.dl, t, iv)
                    t = L.StructGetTypeAtIndex(t, iv)
                else:
                    t = L.GetElementType(t)
                    off += iv * self.size(t)
            return (base + off) & ((1 << 64) - 1)
        ops = [self.const(L.GetOperand(v, i)) for i in range(L.GetNumOperands(v))]
        t = L.TypeOf(v)
        w = L.GetIntTypeWidth(t) if self.tk(t) == L.T_INT else 64
        m = (1 << w) - 1
        if op in (L.BITCAST, L.PTRTOINT, L.INTTOPTR, L.ADDRSPACECAST):
            return ops[0] & m
        if op == L.ADD:
            return (ops[0] + ops[1]) & m
        if op == L.SUB:
            return (ops[0] - ops[1]) & m
        if op == L.MUL:
            return (ops[0] * ops[1]) & m
        if op == L.TRUNC:
            return ops[0] & m
        if op == L.ICMP:
            p = L.GetICmpPredicate(v)
            if p == 32:
                return int(ops[0] == ops[1])
            if p == 33:
                return int(ops[0] != ops[1])
        raise EngineError("constant expression " + L.show(v)[:200])

    # ---- calls
    def unsupported(self, what):
        raise EngineError("unsupported: " + what)

    def callable(self, n):
        f = self.py.get(n)
        if f is None:
            f = self.translate(n)
        return f

    def icall(self, a, *args):
        if type(a) is not int:
            a = E.concretize(a)
        n = self.fbyaddr.get(a)
        if n is None:
            raise MemError("call through invalid pointer 0x%x" % a)
        return self.callable(n)(*args)

    # ---- exceptions
    def landing(self, ex, clauses, cleanup):
        """returns [ptr, selector] or re-raises"""
        for c in clauses:
            if c == 0 or self.matches(ex.tinfo, c):
                return [ex, self.typeid(c)]
        if cleanup:
            return [ex, 0]
        raise ex

    def typeid(self, c):
        i = self.typeids.get(c)
        if i is None:
            i = self.typeids[c] = len(self.typeids) + 1
        return i

    def matches(self, t, c):
        if t == c:
            return True
        for b in self.bases(t):
            if self.matches(b, c):
                return True
        return False

    STD_BASES = {
        "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error",
        "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
        "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
        "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc",
        "_ZTISt8bad_cast": "_ZTISt9exception", "_ZTISt11range_error": "_ZTISt13runtime_error",
        "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt19bad_optional_access": "_ZTISt9exception",
        "_ZTISt18bad_variant_access": "_ZTISt9exception", "_ZTISt12system_error": "_ZTISt13runtime_error",
        "_ZTIN4Dune9ExceptionE": "_ZTISt9exception", "_ZTIN4Dune14NotImplementedE": "_ZTIN4Dune14InvalidStateExceptionE",
    }

    def bases(self, t):
        o = E.objs.get(t >> core.SHIFT)
        if o is None:
            return []
        if o.name in self.STD_BASES and 16 not in o.cells:
            n = self.STD_BASES[o.name]
            return [self.ext_global(n)]
        if not o.cells:
            return []
        vt = ld(t, 8)
        vo = E.objs.get(vt >> core.SHIFT) if type(vt) is int else None
        if vo is None:
            return []
        if "__si_class" in vo.name:
            return [ld(t + 16, 8)]
        if "__vmi_class" in vo.name:
            n = ld(t + 20, 4)
            return [ld(t + 24 + 16 * i, 8) for i in range(n)]
        return []

    def ext_global(self, n):
        if n in self.globals:
            return self.glob_addr(self.globals[n])
        a = self.gaddr.get(n)
        if a is None:
            a = E.alloc(16, n, "global")
            self.gaddr[n] = a
            self.external_data(n, a)
        return a

    def external_data(self, n, a):
        """contents of objects of the runtime library"""
        if n.startswith("_ZTI"):
            # type_info: the name decides about equality
            t = n[4:].encode() + b"\0"
            s = E.alloc(len(t), "_ZTS" + n[4:], "global")
            for k, c in enumerate(t):
                st(s + k, c, 1)
            st(a + 8, s, 8)
        if n.startswith("_ZTTNSt7__cxx11") and "stringstream" in n:
            # the parts of a stream under destruction: all have their ios base at the same place
            self.fake_stream(a, 112 if "ostringstream" in n else 128, False)
            for k in range(1, 8):
                st(a + 8 * k, core.ld(a, 8), 8)
        if n in ("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog"):
            self.fake_stream(a, 0)

    def fake_stream(self, a, base, ios=True):
        """a stream whose base of type ios lies at the given offset"""
        v = self.gaddr.get("stream data")
        if v is None:
            v = self.gaddr["stream data"] = E.alloc(2048, "stream data", "global")
            memset(v, 0, 2048)
            # character table that is marked as filled in
            st(v + 1024 + 56, 1, 1)
            for k in range(256):
                st(v + 1024 + 57 + k, k, 1)
        t = v + 64 + 64 * (base // 8 % 8)
        st(t - 24, base, 8)
        st(a, t, 8)
        if ios:
            st(a + base + 240, v + 1024, 8)

    def raise_std(self, tname):
        p = E.alloc(64, tname, "heap")
        raise CxxThrow(p, self.ext_global(tname))

    # ---- translation
    def translate(self, n):
        f = self.byname.get(n)
        stub = self.find_stub(n)
        if stub is not None:
            self.py[n] = stub
            return stub
        if f is None or L.IsDeclaration(f):
            # alias?
            def missing(*a, n=n):
                raise EngineError("call of unknown external function " + n)
            self.py[n] = missing
            return missing
        src = FunctionTranslator(self, f, n).run()
        self.translated += 1
        E.funcs_used.add(n)
        ns = self.ns
        try:
            code = compile(src, "<ir:%s>" % n, "exec")
        except (SyntaxError, RecursionError, MemoryError) as ex:
            raise EngineError("codegen failed for %s: %s" % (n, ex))
        exec(code, ns)
        fun = ns.pop("F_")
        self.py[n] = fun
        return fun

    def find_stub(self, n):
        s = self.stubs.get(n)
        if s is not None:
            return s
        return self.stub_pattern(n)


class FunctionTranslator:
    def __init__(self, m, f, name):
        self.m = m
        self.f = f
        self.fname = name
        self.vals = {}
        self.out = []
        self.nv = 0

    def val(self, v):
        """python expression for an operand"""
        n = self.vals.get(v)
        if n is not None:
            return n
        k = L.GetValueKind(v)
        if k in (L.K_INST, L.K_ARG):
            n = "v%d" % self.nv
            self.nv += 1
            self.vals[v] = n
            return n
        if k == L.K_META or k == L.K_BB:
            return "None"
        if k == L.K_ASM:
            return "None"
        c = self.m.const(v)
        if type(c) is int:
            s = str(c)
        elif c is UNDEF:
            s = "UNDEF"
        else:
            s = "K%d" % len(self.m.consts)
            self.m.consts[s] = c
            self.m.ns[s] = c
        self.vals[v] = s
        return s

    def w(self, v):
        t = L.TypeOf(v)
        k = self.m.tk(t)
        if k == L.T_INT:
            return L.GetIntTypeWidth(t)
        if k == L.T_PTR:
            return 64
        if k == L.T_VECTOR:
            t = L.GetElementType(t)
            if self.m.tk(t) == L.T_INT:
                return L.GetIntTypeWidth(t)
            return 64
        raise EngineError("width of non-integer in " + self.fname)

    def isvec(self, v):
        return self.m.tk(L.TypeOf(v)) == L.T_VECTOR

    def run(self):
        f = self.f
        m = self.m
        params = [L.GetParam(f, i) for i in range(L.CountParams(f))]
        args = [self.val(p) for p in params]
        blocks = []
        b = L.GetFirstBasicBlock(f)
        while b:
            blocks.append(b)
            b = L.GetNextBasicBlock(b)
        self.bid = {b: i for i, b in enumerate(blocks)}
        self.insts = {}
        preds = {b: 0 for b in blocks}
        self.has_alloca = False
        for b in blocks:
            ins = []
            i = L.GetFirstInstruction(b)
            while i:
                op = L.GetInstructionOpcode(i)
                ins.append((i, op))
                if op == L.ALLOCA:
                    self.has_alloca = True
                i = L.GetNextInstruction(i)
            self.insts[b] = ins
            t = ins[-1][0]
            for k in range(L.GetNumSuccessors(t)):
                preds[L.GetSuccessor(t, k)] += 1
        self.preds = preds
        self.entry = blocks[0]
        heads = [blocks[0]]
        self.emitted = set()
        self.heads = set()
        self.pending = [blocks[0]]
        bodies = {}
        self.heads.add(blocks[0])
        while self.pending:
            b = self.pending.pop()
            self.out = []
            self.block(b, 0)
            bodies[b] = self.out
        order = sorted(bodies, key=lambda b: self.bid[b])
        lines = ["def F_(%s):" % ", ".join(args + ["*rest"] if True else args)]
        ind = " "
        if self.has_alloca:
            lines.append(" stk = []")
            lines.append(" try:")
            ind = "  "
        if len(order) == 1 and not self.selfloop(order[0], bodies):
            lines += [ind + x for x in bodies[order[0]]]
        else:
            lines.append(ind + "bb = %d" % self.bid[order[0]])
            lines.append(ind + "while True:")
            lines.append(ind + " T[0] += 1")
            lines.append(ind + " if T[0] > T[1]: E.steplimit()")
            self.dispatch(lines, ind + " ", order, bodies)
        if self.has_alloca:
            lines.append(" finally:")
            lines.append("  for o_ in stk: E.objs.pop(o_, None)")
        return "\n".join(lines) + "\n"

    def selfloop(self, b, bodies):
        return any("continue" in x for x in bodies[b])

    def dispatch(self, lines, ind, order, bodies):
        if len(order) == 1:
            lines += [ind + x for x in bodies[order[0]]]
            return
        mid = len(order) // 2
        lines.append(ind + "if bb < %d:" % self.bid[order[mid]])
        self.dispatch(lines, ind + " ", order[:mid], bodies)
        lines.append(ind + "else:")
        self.dispatch(lines, ind + " ", order[mid:], bodies)

    def goto(self, frm, to, ind):
        """emit code for the edge frm -> to"""
        p = " " * ind
        names, vals = [], []
        for i, op in self.insts[to]:
            if op != L.PHI:
                break
            for k in range(L.CountIncoming(i)):
                if L.GetIncomingBlock(i, k) == frm:
                    names.append(self.val(i))
                    vals.append(self.val(L.GetIncomingValue(i, k)))
                    break
        if names:
            pairs = [(n, v) for n, v in zip(names, vals) if n != v]
            if pairs:
                self.out.append(p + ", ".join(n for n, _ in pairs) + " = " + ", ".join(v for _, v in pairs))
        if self.preds[to] == 1 and to != self.entry and ind < 14 and to not in self.heads:
            self.block(to, ind)
        else:
            if to not in self.heads:
                self.heads.add(to)
                self.pending.append(to)
            self.out.append(p + "bb = %d" % self.bid[to])
            self.out.append(p + "continue")

    def block(self, b, ind):
        p = " " * ind
        o = self.out
        for i, op in self.insts[b]:
            if op == L.PHI:
                continue
            if op == L.BR:
                if L.IsConditional(i):
                    c = self.val(L.GetCondition(i))
                    t, e = L.GetSuccessor(i, 0), L.GetSuccessor(i, 1)
                    o.append(p + "if %s:" % c)
                    self.goto(b, t, ind + 1)
                    o.append(p + "else:")
                    self.goto(b, e, ind + 1)
                else:
                    self.goto(b, L.GetSuccessor(i, 0), ind)
            elif op == L.RET:
                if L.GetNumOperands(i):
                    o.append(p + "return " + self.val(L.GetOperand(i, 0)))
                else:
                    o.append(p + "return")
            elif op == L.SWITCH:
                c = self.val(L.GetOperand(i, 0))
                n = L.GetNumOperands(i)
                kw = "if"
                # group cases per destination
                dests = {}
                for k in range(2, n, 2):
                    cv = self.m.const(L.GetOperand(i, k))
                    d = L.ValueAsBasicBlock(L.GetOperand(i, k + 1))
                    dests.setdefault(d, []).append(cv)
                for d, cvs in dests.items():
                    cond = " or ".join("%s == %d" % (c, cv) for cv in cvs)
                    o.append(p + "%s %s:" % (kw, cond))
                    kw = "elif"
                    self.goto(b, d, ind + 1)
                d = L.ValueAsBasicBlock(L.GetOperand(i, 1))
                if dests:
                    o.append(p + "else:")
                    self.goto(b, d, ind + 1)
                else:
                    self.goto(b, d, ind)
            elif op == L.INVOKE:
                o.append(p + "try:")
                self.call(i, ind + 1)
                o.append(p + "except CxxThrow as ex_:")
                o.append(p + " lp_ = ex_")
                self.goto_unwind(b, L.GetUnwindDest(i), ind + 1)
                self.goto(b, L.GetNormalDest(i), ind)
            elif op == L.UNREACHABLE:
                o.append(p + "E.unreachable(%r)" % self.fname)
                o.append(p + "raise PathEnd('unreachable')")
            elif op == L.RESUME:
                o.append(p + "raise %s[0]" % self.val(L.GetOperand(i, 0)))
            else:
                self.inst(i, op, p)

    def goto_unwind(self, frm, to, ind):
        # the landing pad block is always a separate head (lp_ is live)
        p = " " * ind
        names, vals = [], []
        for i, op in self.insts[to]:
            if op != L.PHI:
                break
            for k in range(L.CountIncoming(i)):
                if L.GetIncomingBlock(i, k) == frm:
                    names.append(self.val(i))
                    vals.append(self.val(L.GetIncomingValue(i, k)))
                    break
        if names:
            self.out.append(p + ", ".join(names) + " = " + ", ".join(vals))
        if to not in self.heads:
            self.heads.add(to)
            self.pending.append(to)
        self.out.append(p + "bb = %d" % self.bid[to])
        self.out.append(p + "continue")

    # ------------------------------------------------------------ calls
    def call(self, i, ind):
        p = " " * ind
        m = self.m
        callee = L.GetCalledValue(i)
        k = L.GetValueKind(callee)
        while k == L.K_ALIAS:
            callee = L.AliasGetAliasee(callee)
            k = L.GetValueKind(callee)
        na = L.GetNumArgOperands(i)
        rt = L.TypeOf(i)
        has = self.m.tk(rt) != L.T_VOID
        res = (self.val(i) + " = ") if has else ""
        ops = [L.GetOperand(i, j) for j in range(na)]
        if k == L.K_FUNC:
            n = m.funcs.get(callee) or L.name(callee)
            if n.startswith("llvm."):
                self.intrinsic(i, n, ops, res, p)
                return
        args = []
        for j, v in enumerate(ops):
            a = self.val(v)
            at = _callsite_attr(i, j + 1, BYVAL)
            if at:
                sz = m.size(_attr_type(at))
                a = "M.copyarg(%s, %d)" % (a, sz)
            args.append(a)
        if k == L.K_FUNC:
            fn = self.fref(n)
            self.out.append(p + "%s%s(%s)" % (res, fn, ", ".join(args)))
        elif k == L.K_ASM:
            s = L.show(i)
            if 'asm sideeffect ""' in s or 'asm ""' in s:
                self.out.append(p + "pass")
            else:
                self.out.append(p + "unsupported(%r)" % s[:100])
        else:
            self.out.append(p + "%sicall(%s)" % (res, ", ".join([self.val(callee)] + args)))

    def fref(self, n):
        """name of a python global that calls function n (translated lazily)"""
        m = self.m
        key = "f_" + "".join(c if c.isalnum() or c == "_" else "_%02x" % ord(c) for c in n)
        if key not in m.ns:
            def lazy(*a, m=m, n=n, key=key):
                f = m.callable(n)
                m.ns[key] = f
                return f(*a)
            m.ns[key] = m.py.get(n) or lazy
        return key

    def intrinsic(self, i, n, ops, res, p):
        o = self.out
        base = n[5:]
        A = [self.val(v) for v in ops]
        if base.startswith(("dbg.", "lifetime.", "assume", "invariant.start", "invariant.end", "donothing", "prefetch",
                            "experimental.noalias", "var.annotation", "stackrestore", "sideeffect", "pseudoprobe")):
            o.append(p + (res + "0" if res else "pass"))
            return
        if base.startswith(("memcpy.", "memmove.")):
            o.append(p + "memcpy(%s, %s, %s)" % (A[0], A[1], A[2]))
            return
        if base.startswith("memset."):
            o.append(p + "memset(%s, %s, %s)" % (A[0], A[1], A[2]))
            return
        if base.startswith(("launder.", "strip.", "expect", "threadlocal.address", "ssa.copy", "annotation", "ptr.annotation")):
            o.append(p + res + A[0])
            return
        if base.startswith("eh.typeid.for"):
            o.append(p + res + "M.typeid(%s)" % A[0])
            return
        if base.startswith(("is.constant", "stacksave")):
            o.append(p + res + "0")
            return
        if base.startswith("objectsize"):
            o.append(p + res + str((1 << 64) - 1))
            return
        if base.startswith(("trap", "ubsantrap", "debugtrap")):
            o.append(p + "E.unreachable('trap')")
            return
        op = base.split(".")[0]
        vec = any(self.isvec(v) for v in ops)
        w = None
        if ops:
            t = L.TypeOf(ops[0])
            if self.m.tk(t) == L.T_VECTOR:
                t = L.GetElementType(t)
            if self.m.tk(t) == L.T_INT:
                w = L.GetIntTypeWidth(t)
        two = ".".join(base.split(".")[:3])
        fn = None
        key = base
        for cand in ("umul.with.overflow", "smul.with.overflow", "uadd.with.overflow", "sadd.with.overflow",
                     "usub.with.overflow", "ssub.with.overflow", "usub.sat", "uadd.sat", "ssub.sat", "sadd.sat",
                     "is.fpclass", "vector.reduce.add", "vector.reduce.fadd", "vector.reduce.mul", "vector.reduce.or",
                     "vector.reduce.and"):
            if base.startswith(cand):
                key = cand
                break
        else:
            key = op
        if key in INTRINSICS:
            fn = "I_" + key.replace(".", "_")
            self.m.ns[fn] = INTRINSICS[key]
            if vec and not key.startswith("vector"):
                o.append(p + res + "[%s(%s, *x_) for x_ in zip(%s)]" % (fn, w, ", ".join(A)))
            else:
                o.append(p + res + "%s(%s)" % (fn, ", ".join([str(w)] + A)))
            return
        o.append(p + "unsupported(%r)" % n)

    # ------------------------------------------------------------ plain instructions
    def inst(self, i, op, p):
        o = self.out
        m = self.m
        if op == L.CALL:
            self.call(i, len(p))
            return
        if op == L.STORE:
            v, a = L.GetOperand(i, 0), L.GetOperand(i, 1)
            t = L.TypeOf(v)
            k = m.tk(t)
            if k in (L.T_STRUCT, L.T_ARRAY, L.T_VECTOR):
                o.append(p + "M.store_agg(%s, %s, %d)" % (self.val(a), self.val(v), t))
            elif k == L.T_INT and L.GetIntTypeWidth(t) == 1:
                o.append(p + "%s(%s, zext(%s, 1, 8), 1)" % ("sta" if L.GetOrdering(i) else "st", self.val(a), self.val(v)))
            else:
                o.append(p + "%s(%s, %s, %d)" % ("sta" if L.GetOrdering(i) else "st", self.val(a), self.val(v), m.ssize(t)))
            return
        if op == L.FENCE:
            return
        r = p + self.val(i) + " = "
        n = L.GetNumOperands(i)
        if op == L.LOAD:
            a = self.val(L.GetOperand(i, 0))
            t = L.TypeOf(i)
            k = m.tk(t)
            if k in (L.T_DOUBLE, L.T_FLOAT, L.T_FP80):
                o.append(r + "ldf(%s, %d)" % (a, m.ssize(t)))
            elif k in (L.T_STRUCT, L.T_ARRAY, L.T_VECTOR):
                o.append(r + "M.load_agg(%s, %d)" % (a, t))
            else:
                w = 64 if k == L.T_PTR else L.GetIntTypeWidth(t)
                f = "lda" if L.GetOrdering(i) else "ld"
                if w % 8:
                    o.append(r + "trunc(%s(%s, %d), %d)" % (f, a, m.ssize(t), w))
                else:
                    o.append(r + "%s(%s, %d)" % (f, a, m.ssize(t)))
            return
        if op == L.ALLOCA:
            t = L.GetAllocatedType(i)
            cnt = self.val(L.GetOperand(i, 0))
            o.append(r + "E.alloc(%d * conc(%s), %r, 'stack')" % (m.size(t), cnt, self.fname[:60]))
            o.append(p + "stk.append(%s >> 24)" % self.val(i))
            return
        if op == L.GEP:
            self.gep(i, r)
            return
        A = [self.val(L.GetOperand(i, k)) for k in range(n)] if op not in (L.LANDINGPAD,) else []
        if op == L.LANDINGPAD:
            cl = []
            for k in range(L.GetNumClauses(i)):
                c = L.GetClause(i, k)
                if m.tk(L.TypeOf(c)) == L.T_ARRAY:
                    continue
                cl.append(self.val(c))
            o.append(r + "landing(lp_, (%s), %d)" % ("".join(x + ", " for x in cl), L.IsCleanup(i)))
            return
        vec = self.isvec(i) or (n and self.isvec(L.GetOperand(i, 0)))
        if op == L.EXTRACTVALUE:
            idx = L.GetIndices(i)
            o.append(r + A[0] + "".join("[%d]" % idx[k] for k in range(L.GetNumIndices(i))))
            return
        if op == L.INSERTVALUE:
            idx = L.GetIndices(i)
            ix = [idx[k] for k in range(L.GetNumIndices(i))]
            o.append(r + "M.insertvalue(%s, %s, %r)" % (A[0], A[1], ix))
            return
        if op == L.EXTRACTELEMENT:
            o.append(r + "%s[conc(%s)]" % (A[0], A[1]))
            return
        if op == L.INSERTELEMENT:
            o.append(r + "M.insertvalue(%s, %s, [conc(%s)])" % (A[0], A[1], A[2]))
            return
        if op == L.SHUFFLEVECTOR:
            ne = L.GetNumMaskElements(i)
            mask = [L.GetMaskValue(i, k) for k in range(ne)]
            o.append(r + "M.shuffle(%s, %s, %r)" % (A[0], A[1], mask))
            return
        if op == L.ATOMICRMW:
            w = self.w(i)
            sz = m.ssize(L.TypeOf(i))
            k = L.GetAtomicRMWBinOp(i)
            o.append(r + "lda(%s, %d)" % (A[0], sz))
            old = self.val(i)
            e = {0: A[1], 1: "(%s + %s) & %d" % (old, A[1], (1 << w) - 1), 2: "(%s - %s) & %d" % (old, A[1], (1 << w) - 1),
                 3: "%s & %s" % (old, A[1]), 5: "%s | %s" % (old, A[1]), 6: "%s ^ %s" % (old, A[1])}.get(k)
            if e is None:
                o.append(p + "unsupported('atomicrmw')")
            else:
                o.append(p + "sta(%s, %s, %d)" % (A[0], e, sz))
            return
        if op == L.ATOMICCMPXCHG:
            sz = m.ssize(L.TypeOf(L.GetOperand(i, 1)))
            o.append(r + "M.cmpxchg(%s, %s, %s, %d)" % (A[0], A[1], A[2], sz))
            return
        if vec:
            names = ["x%d_" % k for k in range(n)]
            e = self.expr(i, op, names)
            # scalar operands of a vector select keep their value
            args = []
            ln = L.GetVectorSize(L.TypeOf(i)) if self.isvec(i) else L.GetVectorSize(L.TypeOf(L.GetOperand(i, 0)))
            if op == L.BITCAST:
                o.append(r + "M.vbitcast(%s, %d, %d)" % (A[0], L.TypeOf(L.GetOperand(i, 0)), L.TypeOf(i)))
                return
            for k in range(n):
                if self.isvec(L.GetOperand(i, k)):
                    args.append(A[k])
                else:
                    args.append("[%s]*%d" % (A[k], ln))
            o.append(r + "[%s for %s in zip(%s)]" % (e, ", ".join(names) + ("," if n == 1 else ""), ", ".join(args)))
            return
        o.append(r + self.expr(i, op, A))

    def gep(self, i, r):
        m = self.m
        t = L.GetGEPSourceElementType(i)
        n = L.GetNumOperands(i)
        base = self.val(L.GetOperand(i, 0))
        off = 0
        terms = []
        for k in range(1, n):
            idx = L.GetOperand(i, k)
            ck = L.GetValueKind(idx)
            if k > 1 and m.tk(t) == L.T_STRUCT:
                iv = m.const(idx)
                off += L.OffsetOfElement(m.dl, t, iv)
                t = L.StructGetTypeAtIndex(t, iv)
                continue
            if k > 1:
                t = L.GetElementType(t)
            sz = m.size(t)
            w = L.GetIntTypeWidth(L.TypeOf(idx))
            if ck == L.K_CINT:
                off += sgn(m.const(idx), w) * sz
            else:
                a = self.val(idx)
                if w < 64:
                    a = "sext(%s, %d, 64)" % (a, w)
                terms.append(a if sz == 1 else "%s * %d" % (a, sz))
        if not terms:
            if off == 0:
                self.out.append(r + base)
            else:
                self.out.append(r + "(%s + %d) & 18446744073709551615" % (base, off))
            return
        e = base + " + " + " + ".join(terms)
        if off:
            e += " + %d" % off
        self.out.append(r + "(%s) & 18446744073709551615" % e)

    def expr(self, i, op, A):
        m = self.m
        if m.rounding and op in (L.FADD, L.FSUB, L.FMUL, L.FDIV):
            t = L.TypeOf(i)
            if m.tk(t) == L.T_VECTOR:
                t = L.GetElementType(t)
            n = {L.FADD: "radd", L.FSUB: "rsub", L.FMUL: "rmul", L.FDIV: "rdiv"}[op]
            return "%s(%s, %s, %d)" % (n, A[0], A[1], {L.T_FLOAT: 24, L.T_DOUBLE: 53}.get(m.tk(t), 64))
        if m.rounding and op == L.FPTRUNC:
            return "rtrunc(%s)" % A[0]
        if op in (L.FADD,):
            return "%s + %s" % (A[0], A[1])
        if op == L.FSUB:
            return "%s - %s" % (A[0], A[1])
        if op == L.FMUL:
            return "%s * %s" % (A[0], A[1])
        if op == L.FDIV:
            return "fdiv(%s, %s)" % (A[0], A[1])
        if op == L.FREM:
            return "fr(%s, %s)" % (A[0], A[1])
        if op == L.FNEG:
            return "-%s" % A[0]
        if op == L.ICMP:
            pr = L.GetICmpPredicate(i)
            w = self.w(L.GetOperand(i, 0))
            if pr == 32:
                return "ieq(%s, %s)" % (A[0], A[1])
            if pr == 33:
                return "ieq(%s, %s) ^ 1" % (A[0], A[1])
            s = {34: ">", 35: ">=", 36: "<", 37: "<=", 38: ">", 39: ">=", 40: "<", 41: "<="}[pr]
            if pr >= 38:
                S = 1 << (w - 1)
                return "+((%s ^ %d) %s (%s ^ %d))" % (A[0], S, s, A[1], S)
            return "+(%s %s %s)" % (A[0], s, A[1])
        if op == L.FCMP:
            pr = L.GetFCmpPredicate(i)
            if pr == 0:
                return "0"
            if pr == 15:
                return "1"
            if pr == 7:
                return "M.ford(%s, %s)" % (A[0], A[1])
            if pr == 8:
                return "M.ford(%s, %s) ^ 1" % (A[0], A[1])
            k = pr & 7
            signs = []
            if k & 1:
                signs.append("0")
            if k & 2:
                signs.append("1")
            if k & 4:
                signs.append("-1")
            nm = "FS_" + "_".join(s.replace("-", "m") for s in signs)
            if nm not in m.ns:
                m.ns[nm] = frozenset(int(s) for s in signs)
            if pr >= 8:
                return "M.fcmpu(%s, %s, %s)" % (A[0], A[1], nm)
            return "E.fcmp(%s, %s, %s)" % (A[0], A[1], nm)
        if op == L.SELECT:
            t = L.TypeOf(i)
            if m.tk(t) == L.T_VECTOR:
                t = L.GetElementType(t)
            if m.tk(t) == L.T_INT:
                return "select_i(%s, %s, %s, %d)" % (A[0], A[1], A[2], L.GetIntTypeWidth(t))
            return "select(%s, %s, %s)" % tuple(A[:3])
        if op in (L.FPEXT,):
            return A[0]
        if op == L.FPTRUNC:
            return "fptrunc(%s)" % A[0]
        if op in (L.SITOFP, L.UITOFP):
            return "E.sitofp(%s, %d, %s)" % (A[0], self.w(L.GetOperand(i, 0)), op == L.SITOFP)
        if op in (L.FPTOSI, L.FPTOUI):
            return "E.fptoint(%s, %d, %s)" % (A[0], self.w(i), op == L.FPTOSI)
        if op == L.BITCAST:
            st_, dt = L.TypeOf(L.GetOperand(i, 0)), L.TypeOf(i)
            ks, kd = m.tk(st_), m.tk(dt)
            fl = (L.T_FLOAT, L.T_DOUBLE)
            if ks in fl and kd == L.T_INT:
                return "bitcast_fi(%s, %d)" % (A[0], m.ssize(st_))
            if kd in fl and ks == L.T_INT:
                return "bitcast_if(%s, %d)" % (A[0], m.ssize(dt))
            return A[0]
        if op == L.FREEZE:
            return "M.freeze(%s)" % A[0]
        if op in (L.PTRTOINT, L.INTTOPTR):
            w = self.w(i)
            w0 = self.w(L.GetOperand(i, 0))
            if w < w0:
                return "trunc(%s, %d)" % (A[0], w)
            return A[0]
        if op == L.ADDRSPACECAST:
            return A[0]
        w = self.w(i)
        mask = (1 << w) - 1
        if op == L.ADD:
            return "(%s + %s) & %d" % (A[0], A[1], mask)
        if op == L.SUB:
            return "(%s - %s) & %d" % (A[0], A[1], mask)
        if op == L.MUL:
            return "(%s * %s) & %d" % (A[0], A[1], mask)
        if op in (L.AND, L.OR, L.XOR):
            s = {L.AND: "&", L.OR: "|", L.XOR: "^"}[op]
            return "%s %s %s" % (A[0], s, A[1])
        if op == L.ZEXT:
            return "zext(%s, %d, %d)" % (A[0], self.w(L.GetOperand(i, 0)), w)
        if op == L.SEXT:
            return "sext(%s, %d, %d)" % (A[0], self.w(L.GetOperand(i, 0)), w)
        if op == L.TRUNC:
            return "trunc(%s, %d)" % (A[0], w)
        h = {L.SHL: "shl", L.LSHR: "lshr", L.ASHR: "ashr", L.UDIV: "udiv", L.UREM: "urem", L.SDIV: "sdiv", L.SREM: "srem"}.get(op)
        if h:
            return "%s(%s, %s, %d)" % (h, A[0], A[1], w)
        return "unsupported(%r)" % L.show(i)[:100]


# ------------------------------------------------------------------ Module helpers used by generated code

def _insertvalue(agg, v, idx):
    r = list(agg)
    if len(idx) == 1:
        r[idx[0]] = v
    else:
        r[idx[0]] = _insertvalue(r[idx[0]], v, idx[1:])
    return r


def _shuffle(a, b, mask):
    c = list(a) + (list(b) if isinstance(b, list) else [UNDEF] * len(a))
    return [c[k] if k >= 0 else UNDEF for k in mask]


def _elems(m, t):
    tk = m.tk(t)
    if tk == L.T_STRUCT:
        return [(L.OffsetOfElement(m.dl, t, k), L.StructGetTypeAtIndex(t, k)) for k in range(L.CountStructElementTypes(t))]
    et = L.GetElementType(t)
    n = L.GetArrayLength2(t) if tk == L.T_ARRAY else L.GetVectorSize(t)
    es = m.size(et)
    return [(k * es, et) for k in range(n)]


def _load_agg(m, a, t):
    out = []
    for off, et in _elems(m, t):
        k = m.tk(et)
        if k in (L.T_DOUBLE, L.T_FLOAT, L.T_FP80):
            out.append(ldf(a + off, m.ssize(et)))
        elif k in (L.T_STRUCT, L.T_ARRAY, L.T_VECTOR):
            out.append(_load_agg(m, a + off, et))
        else:
            out.append(ld(a + off, m.ssize(et)))
    return out


def _store_agg(m, a, v, t):
    if type(a) is not int:
        a = E.concretize(a)
    for (off, et), x in zip(_elems(m, t), v):
        k = m.tk(et)
        if k in (L.T_STRUCT, L.T_ARRAY, L.T_VECTOR):
            _store_agg(m, a + off, x, et)
        else:
            if k == L.T_INT and L.GetIntTypeWidth(et) == 1:
                x = zext(x, 1, 8)
            st(a + off, x, m.ssize(et))


def _vbitcast(m, v, ts, td):
    a = E.alloc(max(m.size(ts), m.size(td)), "bitcast", "stack")
    if isinstance(v, list):
        _store_agg(m, a, v, ts)
    else:
        st(a, v, m.ssize(ts))
    if m.tk(td) == L.T_VECTOR:
        return _load_agg(m, a, td)
    if m.tk(td) in (L.T_DOUBLE, L.T_FLOAT):
        return ldf(a, m.ssize(td))
    return ld(a, m.ssize(td))


def _copyarg(a, sz):
    p = E.alloc(sz, "byval", "stack")
    memcpy(p, a, sz)
    return p


def _cmpxchg(a, old, new, sz):
    v = core.ld(a, sz)
    eq = ieq(v, old)
    if eq if isinstance(eq, int) else E.decide(eq):
        core.st(a, new, sz)
        return [v, 1]
    return [v, 0]


def _freeze(v):
    if isinstance(v, UndefT):
        return 0
    return v


def _isnan(a):
    return isinstance(a, float) and a != a


def _ford(a, b):
    return 0 if _isnan(a) or _isnan(b) else 1


def _fcmpu(a, b, signs):
    if _isnan(a) or _isnan(b):
        return 1
    return E.fcmp(a, b, signs)


Module.insertvalue = staticmethod(_insertvalue)
Module.shuffle = staticmethod(_shuffle)
Module.load_agg = _load_agg
Module.store_agg = _store_agg
Module.vbitcast = _vbitcast
Module.copyarg = staticmethod(_copyarg)
Module.cmpxchg = staticmethod(_cmpxchg)
Module.freeze = staticmethod(_freeze)
Module.ford = staticmethod(_ford)
Module.fcmpu = staticmethod(_fcmpu)


# ------------------------------------------------------------------ intrinsics

INTRINSICS = {}


def intr(name):
    def d(f):
        INTRINSICS[name] = f
        return f
    return d


def _b(x):
    return (x & 1) if isinstance(x, int) else E.decide(x)


def _slt(a, b, w):
    S = 1 << (w - 1)
    return +((a ^ S) < (b ^ S))


@intr("smax")
def _(w, a, b): return select_i(_slt(a, b, w), b, a, w)
@intr("smin")
def _(w, a, b): return select_i(_slt(a, b, w), a, b, w)
@intr("umax")
def _(w, a, b): return select_i(+(a < b), b, a, w)
@intr("umin")
def _(w, a, b): return select_i(+(a < b), a, b, w)
@intr("abs")
def _(w, a, f): return select_i(_slt(a, 0, w), (0 - a) & ((1 << w) - 1), a, w)
@intr("fabs")
def _(w, a): return E.fabs(a)
@intr("sqrt")
def _(w, a): return E.sqrt(a)
@intr("fmuladd")
def _(w, a, b, c): return a * b + c
@intr("fma")
def _(w, a, b, c): return a * b + c
@intr("maxnum")
def _(w, a, b): return select(E.fcmp(a, b, frozenset((-1,))), b, a)
@intr("minnum")
def _(w, a, b): return select(E.fcmp(a, b, frozenset((-1,))), a, b)
INTRINSICS["maximum"] = INTRINSICS["maxnum"]
INTRINSICS["minimum"] = INTRINSICS["minnum"]


@intr("copysign")
def _(w, a, b):
    a = E.fabs(a)
    c = E.fcmp(b, Fraction(0), frozenset((-1,)))
    return select(c, -a, a)


def _conc_real(a, what):
    if isinstance(a, (RF, UndefT)):
        raise EngineError(what + " of symbolic real")
    return a


def _mk(x):
    return float(x) if E.ieee else Fraction(x)


def _floor(a):
    """largest integer below a symbolic real: one path per value"""
    k = 0
    if _b(E.fcmp(a, Fraction(0), frozenset((0, 1)))):
        while not _b(E.fcmp(a, Fraction(k + 1), frozenset((-1,)))):
            k += 1
            if k > 256:
                raise EngineError("floor of a large symbolic real")
        return k
    while not _b(E.fcmp(a, Fraction(k - 1), frozenset((0, 1)))):
        k -= 1
        if k < -256:
            raise EngineError("floor of a large symbolic real")
    return k - 1


@intr("floor")
def _(w, a):
    import math
    if isinstance(a, RF):
        return Fraction(_floor(a))
    return _mk(math.floor(_conc_real(a, "floor")))
@intr("ceil")
def _(w, a):
    import math
    if isinstance(a, RF):
        return Fraction(-_floor(-a))
    return _mk(math.ceil(_conc_real(a, "ceil")))
@intr("trunc")
def _(w, a):
    if isinstance(a, RF):
        k = _floor(a)
        return Fraction(k if k >= 0 else -_floor(-a))
    return _mk(int(_conc_real(a, "trunc")))
@intr("rint")
def _(w, a): return _mk(round(_conc_real(a, "rint")))
INTRINSICS["nearbyint"] = INTRINSICS["rint"]
INTRINSICS["roundeven"] = INTRINSICS["rint"]
@intr("round")
def _(w, a):
    if isinstance(a, RF):
        h = Fraction(1, 2)
        return Fraction(_floor(a + h) if _b(E.fcmp(a, Fraction(0), frozenset((0, 1)))) else -_floor(h - a))
    a = _conc_real(a, "round")
    f = Fraction(a)
    q = int(abs(f) + Fraction(1, 2))
    return _mk(q if f >= 0 else -q)


@intr("lround")
def _(w, a): return int(INTRINSICS["round"](None, a)) & ((1 << 64) - 1)
INTRINSICS["llround"] = INTRINSICS["lround"]
@intr("lrint")
def _(w, a): return int(INTRINSICS["rint"](None, a)) & ((1 << 64) - 1)
INTRINSICS["llrint"] = INTRINSICS["lrint"]


def powi(a, n):
    if n < 0:
        one = 1.0 if isinstance(a, float) else Fraction(1)
        return fdiv(one, powi(a, -n))
    r = 1.0 if isinstance(a, float) else Fraction(1)
    for _ in range(n):
        r = r * a
    return r


@intr("pow")
def _(w, a, b):
    if isinstance(b, (Fraction, float)) and Fraction(b).denominator == 1 and abs(b) < 200:
        return powi(a, int(b))
    if isinstance(a, float) and isinstance(b, float):
        return a ** b
    raise EngineError("pow with non-integer exponent")
@intr("powi")
def _(w, a, b):
    return powi(a, sgn(E.concretize(b), 32))


@intr("ctpop")
def _(w, a):
    if isinstance(a, int):
        return bin(a).count("1")
    return bvres(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(k, k, a.e)) for k in range(w)]), w, a.vs)
@intr("ctlz")
def _(w, a, f):
    if isinstance(a, int):
        return w - a.bit_length()
    e = z3.BitVecVal(w, w)
    for k in range(w):
        e = z3.If(z3.Extract(k, k, a.e) == 1, z3.BitVecVal(w - 1 - k, w), e)
    return bvres(e, w, a.vs)
@intr("cttz")
def _(w, a, f):
    if isinstance(a, int):
        return w if a == 0 else (a & -a).bit_length() - 1
    e = z3.BitVecVal(w, w)
    for k in range(w - 1, -1, -1):
        e = z3.If(z3.Extract(k, k, a.e) == 1, z3.BitVecVal(k, w), e)
    return bvres(e, w, a.vs)
@intr("bswap")
def _(w, a):
    if isinstance(a, int):
        return int.from_bytes(a.to_bytes(w // 8, "little"), "big")
    return bvres(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a.e) for k in range(w // 8)]), w, a.vs)
@intr("fshl")
def _(w, a, b, c):
    if isinstance(c, int):
        c %= w
        if c == 0:
            return a
        return shl(a, c, w) | lshr(b, w - c, w)
    raise EngineError("fshl symbolic")
@intr("fshr")
def _(w, a, b, c):
    if isinstance(c, int):
        c %= w
        if c == 0:
            return b
        return shl(a, w - c, w) | lshr(b, c, w)
    raise EngineError("fshr symbolic")


def _ovf(name, pyop, signed):
    def f(w, a, b):
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, w), sgn(b, w)) if signed else (a, b)
            r = pyop(x, y)
            rm = r & m
            back = sgn(rm, w) if signed else rm
            return [rm, int(back != r)]
        ext = z3.SignExt if signed else z3.ZeroExt
        x, y = ext(w, bvterm(a, w)), ext(w, bvterm(b, w))
        r = pyop(x, y)
        lo = z3.Extract(w - 1, 0, r)
        vs = vs_of(a, b)
        return [bvres(lo, w, vs), core.mkb(ext(w, lo) != r, vs)]
    INTRINSICS[name + ".with.overflow"] = f


_ovf("umul", lambda a, b: a * b, False)
_ovf("smul", lambda a, b: a * b, True)
_ovf("uadd", lambda a, b: a + b, False)
_ovf("sadd", lambda a, b: a + b, True)
_ovf("usub", lambda a, b: a - b, False)
_ovf("ssub", lambda a, b: a - b, True)


@intr("usub.sat")
def _(w, a, b): return select_i(+(a < b), 0, (a - b) & ((1 << w) - 1), w)
@intr("uadd.sat")
def _(w, a, b):
    r = (a + b) & ((1 << w) - 1)
    return select_i(+(r < a), (1 << w) - 1, r, w)
@intr("is.fpclass")
def _(w, a, mask):
    # reals are finite; nan/inf only as python floats
    if isinstance(a, float) and (a != a):
        return 1 if mask & 3 else 0
    if isinstance(a, float) and abs(a) == float("inf"):
        return 1 if mask & (0x200 if a > 0 else 4) else 0
    if not isinstance(a, (RF, UndefT)):
        c = 0x8 | 0x10 if a < 0 else (0x60 if a == 0 else 0x80 | 0x100)
        return 1 if mask & c else 0
    fin = 0x1f8
    if mask & fin == fin:
        return 1
    if mask & fin == 0:
        return 0
    raise EngineError("is.fpclass on symbolic")
@intr("vector.reduce.add")
def _(w, a):
    r = 0
    for x in a:
        r = (r + x) & ((1 << w) - 1)
    return r
@intr("vector.reduce.or")
def _(w, a):
    r = 0
    for x in a:
        r = r | x
    return r
@intr("vector.reduce.and")
def _(w, a):
    r = (1 << w) - 1
    for x in a:
        r = r & x
    return r
@intr("vector.reduce.mul")
def _(w, a):
    r = 1
    for x in a:
        r = (r * x) & ((1 << w) - 1)
    return r
@intr("vector.reduce.fadd")
def _(w, s, a):
    for x in a:
        s = s + x
    return s
