"""Minimal ctypes binding of the LLVM 18 C API (reading bitcode)."""
import ctypes as C
import os

_paths = ["/usr/lib/llvm-18/lib/libLLVM-18.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
          "/usr/lib/llvm-18/lib/libLLVM.so.18.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"]
L = None
for p in _paths:
    if os.path.exists(p):
        L = C.CDLL(p)
        break
if L is None:
    raise SystemExit("libLLVM-18 not found")

vp, u, cp, ull, i = C.c_void_p, C.c_uint, C.c_char_p, C.c_ulonglong, C.c_int


def fn(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = fn("LLVMContextCreate", vp)
CreateMemBuf = fn("LLVMCreateMemoryBufferWithContentsOfFile", i, cp, C.POINTER(vp), C.POINTER(cp))
ParseIR = fn("LLVMParseIRInContext", i, vp, vp, C.POINTER(vp), C.POINTER(cp))
GetModuleDataLayout = fn("LLVMGetModuleDataLayout", vp, vp)
GetFirstFunction = fn("LLVMGetFirstFunction", vp, vp)
GetNextFunction = fn("LLVMGetNextFunction", vp, vp)
GetFirstGlobal = fn("LLVMGetFirstGlobal", vp, vp)
GetNextGlobal = fn("LLVMGetNextGlobal", vp, vp)
GetFirstGlobalAlias = fn("LLVMGetFirstGlobalAlias", vp, vp)
GetNextGlobalAlias = fn("LLVMGetNextGlobalAlias", vp, vp)
AliasGetAliasee = fn("LLVMAliasGetAliasee", vp, vp)
GetNamedFunction = fn("LLVMGetNamedFunction", vp, vp, cp)
GetNamedGlobal = fn("LLVMGetNamedGlobal", vp, vp, cp)
_GetValueName2 = fn("LLVMGetValueName2", C.POINTER(C.c_char), vp, C.POINTER(C.c_size_t))
IsDeclaration = fn("LLVMIsDeclaration", i, vp)
CountParams = fn("LLVMCountParams", u, vp)
GetParam = fn("LLVMGetParam", vp, vp, u)
GetFirstBasicBlock = fn("LLVMGetFirstBasicBlock", vp, vp)
GetNextBasicBlock = fn("LLVMGetNextBasicBlock", vp, vp)
GetFirstInstruction = fn("LLVMGetFirstInstruction", vp, vp)
GetNextInstruction = fn("LLVMGetNextInstruction", vp, vp)
GetInstructionOpcode = fn("LLVMGetInstructionOpcode", i, vp)
GetNumOperands = fn("LLVMGetNumOperands", i, vp)
GetOperand = fn("LLVMGetOperand", vp, vp, u)
TypeOf = fn("LLVMTypeOf", vp, vp)
GetTypeKind = fn("LLVMGetTypeKind", i, vp)
GetIntTypeWidth = fn("LLVMGetIntTypeWidth", u, vp)
CountStructElementTypes = fn("LLVMCountStructElementTypes", u, vp)
StructGetTypeAtIndex = fn("LLVMStructGetTypeAtIndex", vp, vp, u)
GetElementType = fn("LLVMGetElementType", vp, vp)
GetArrayLength2 = fn("LLVMGetArrayLength2", ull, vp)
GetVectorSize = fn("LLVMGetVectorSize", u, vp)
GetReturnType = fn("LLVMGetReturnType", vp, vp)
StoreSizeOfType = fn("LLVMStoreSizeOfType", ull, vp, vp)
ABISizeOfType = fn("LLVMABISizeOfType", ull, vp, vp)
OffsetOfElement = fn("LLVMOffsetOfElement", ull, vp, vp, u)
GetValueKind = fn("LLVMGetValueKind", i, vp)
ConstIntGetZExtValue = fn("LLVMConstIntGetZExtValue", ull, vp)
ConstRealGetDouble = fn("LLVMConstRealGetDouble", C.c_double, vp, C.POINTER(i))
GetConstOpcode = fn("LLVMGetConstOpcode", i, vp)
GetAggregateElement = fn("LLVMGetAggregateElement", vp, vp, u)
GetInitializer = fn("LLVMGetInitializer", vp, vp)
GlobalGetValueType = fn("LLVMGlobalGetValueType", vp, vp)
GetICmpPredicate = fn("LLVMGetICmpPredicate", i, vp)
GetFCmpPredicate = fn("LLVMGetFCmpPredicate", i, vp)
CountIncoming = fn("LLVMCountIncoming", u, vp)
GetIncomingValue = fn("LLVMGetIncomingValue", vp, vp, u)
GetIncomingBlock = fn("LLVMGetIncomingBlock", vp, vp, u)
GetNumSuccessors = fn("LLVMGetNumSuccessors", u, vp)
GetSuccessor = fn("LLVMGetSuccessor", vp, vp, u)
IsConditional = fn("LLVMIsConditional", i, vp)
GetCondition = fn("LLVMGetCondition", vp, vp)
GetCalledValue = fn("LLVMGetCalledValue", vp, vp)
GetNumArgOperands = fn("LLVMGetNumArgOperands", u, vp)
GetNormalDest = fn("LLVMGetNormalDest", vp, vp)
GetUnwindDest = fn("LLVMGetUnwindDest", vp, vp)
GetAllocatedType = fn("LLVMGetAllocatedType", vp, vp)
GetGEPSourceElementType = fn("LLVMGetGEPSourceElementType", vp, vp)
GetNumIndices = fn("LLVMGetNumIndices", u, vp)
GetIndices = fn("LLVMGetIndices", C.POINTER(u), vp)
GetNumClauses = fn("LLVMGetNumClauses", u, vp)
GetClause = fn("LLVMGetClause", vp, vp, u)
IsCleanup = fn("LLVMIsCleanup", i, vp)
GetMaskValue = fn("LLVMGetMaskValue", i, vp, u)
GetNumMaskElements = fn("LLVMGetNumMaskElements", u, vp)
GetAtomicRMWBinOp = fn("LLVMGetAtomicRMWBinOp", i, vp)
BasicBlockAsValue = fn("LLVMBasicBlockAsValue", vp, vp)
ValueAsBasicBlock = fn("LLVMValueAsBasicBlock", vp, vp)
GetBasicBlockTerminator = fn("LLVMGetBasicBlockTerminator", vp, vp)
PrintValueToString = fn("LLVMPrintValueToString", cp, vp)
GetOrdering = fn("LLVMGetOrdering", i, vp)
IsThreadLocal = fn("LLVMIsThreadLocal", i, vp)
GetLinkage = fn("LLVMGetLinkage", i, vp)


def name(v):
    n = C.c_size_t()
    p = _GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode()


def load(path):
    ctx = ContextCreate()
    buf = vp()
    err = cp()
    if CreateMemBuf(path.encode(), C.byref(buf), C.byref(err)):
        raise RuntimeError("cannot read %s: %s" % (path, err.value))
    mod = vp()
    if ParseIR(ctx, buf, C.byref(mod), C.byref(err)):
        raise RuntimeError("cannot parse %s: %s" % (path, err.value))
    return mod.value


def show(v):
    return PrintValueToString(v).decode()


(RET, BR, SWITCH, INDIRECTBR, INVOKE) = (1, 2, 3, 4, 5)
UNREACHABLE = 7
(ADD, FADD, SUB, FSUB, MUL, FMUL, UDIV, SDIV, FDIV, UREM, SREM, FREM) = range(8, 20)
(SHL, LSHR, ASHR, AND, OR, XOR) = range(20, 26)
(ALLOCA, LOAD, STORE, GEP) = range(26, 30)
(TRUNC, ZEXT, SEXT, FPTOUI, FPTOSI, UITOFP, SITOFP, FPTRUNC, FPEXT, PTRTOINT, INTTOPTR, BITCAST) = range(30, 42)
(ICMP, FCMP, PHI, CALL, SELECT) = range(42, 47)
(VAARG, EXTRACTELEMENT, INSERTELEMENT, SHUFFLEVECTOR, EXTRACTVALUE, INSERTVALUE) = range(49, 55)
(FENCE, ATOMICCMPXCHG, ATOMICRMW, RESUME, LANDINGPAD, ADDRSPACECAST) = range(55, 61)
FNEG, FREEZE = 66, 68

(T_VOID, T_HALF, T_FLOAT, T_DOUBLE, T_FP80, T_FP128, T_PPC, T_LABEL, T_INT, T_FUNC,
 T_STRUCT, T_ARRAY, T_PTR, T_VECTOR, T_META) = range(15)

(K_ARG, K_BB, K_MU, K_MD, K_MP, K_FUNC, K_ALIAS, K_IFUNC, K_GVAR, K_BLOCKADDR, K_CEXPR, K_CARRAY,
 K_CSTRUCT, K_CVECTOR, K_UNDEF, K_CAZ, K_CDA, K_CDV, K_CINT, K_CFP, K_NULL, K_TOKNONE, K_META, K_ASM,
 K_INST, K_POISON) = range(26)
