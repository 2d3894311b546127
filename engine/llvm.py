"""Thin ctypes layer over libLLVM-18's C API: enough to load a bitcode module,
redirect functions to stubs, and walk functions / blocks / instructions."""
import ctypes as C, ctypes.util, glob, functools

def _find():
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
        try:
            return C.CDLL(p)
        except OSError:
            continue
    raise RuntimeError("libLLVM-18 not found")

L = _find()
P = C.c_void_p
def fn(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f

U = C.c_uint
B = C.c_int
S = C.c_char_p
ContextCreate = fn("LLVMContextCreate", P)
MemBufFile = fn("LLVMCreateMemoryBufferWithContentsOfFile", B, S, C.POINTER(P), C.POINTER(S))
ParseIR = fn("LLVMParseIRInContext", B, P, P, C.POINTER(P), C.POINTER(S))
WriteBitcode = fn("LLVMWriteBitcodeToFile", B, P, S)
FirstFn = fn("LLVMGetFirstFunction", P, P)
NextFn = fn("LLVMGetNextFunction", P, P)
NamedFn = fn("LLVMGetNamedFunction", P, P, S)
FirstGlobal = fn("LLVMGetFirstGlobal", P, P)
NextGlobal = fn("LLVMGetNextGlobal", P, P)
FirstAlias = fn("LLVMGetFirstGlobalAlias", P, P)
NextAlias = fn("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = fn("LLVMAliasGetAliasee", P, P)
IsDeclaration = fn("LLVMIsDeclaration", B, P)
GetInitializer = fn("LLVMGetInitializer", P, P)
IsGlobalConstant = fn("LLVMIsGlobalConstant", B, P)
GlobalValueType = fn("LLVMGlobalGetValueType", P, P)
GetLinkage = fn("LLVMGetLinkage", B, P)
SetLinkage = fn("LLVMSetLinkage", None, P, B)
RAUW = fn("LLVMReplaceAllUsesWith", None, P, P)
DeleteBB = fn("LLVMDeleteBasicBlock", None, P)
_valname = fn("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
PrintValue = fn("LLVMPrintValueToString", C.c_void_p, P)
PrintType = fn("LLVMPrintTypeToString", C.c_void_p, P)
DisposeMsg = fn("LLVMDisposeMessage", None, C.c_void_p)
CountParams = fn("LLVMCountParams", U, P)
GetParam = fn("LLVMGetParam", P, P, U)
FirstBB = fn("LLVMGetFirstBasicBlock", P, P)
NextBB = fn("LLVMGetNextBasicBlock", P, P)
FirstInst = fn("LLVMGetFirstInstruction", P, P)
NextInst = fn("LLVMGetNextInstruction", P, P)
Opcode = fn("LLVMGetInstructionOpcode", B, P)
NumOps = fn("LLVMGetNumOperands", B, P)
Op = fn("LLVMGetOperand", P, P, U)
TypeOf = fn("LLVMTypeOf", P, P)
TypeKind = fn("LLVMGetTypeKind", B, P)
IntWidth = fn("LLVMGetIntTypeWidth", U, P)
ValueKind = fn("LLVMGetValueKind", B, P)
ICmpPred = fn("LLVMGetICmpPredicate", B, P)
FCmpPred = fn("LLVMGetFCmpPredicate", B, P)
NumSucc = fn("LLVMGetNumSuccessors", U, P)
Succ = fn("LLVMGetSuccessor", P, P, U)
IsConditional = fn("LLVMIsConditional", B, P)
Condition = fn("LLVMGetCondition", P, P)
PhiCount = fn("LLVMCountIncoming", U, P)
PhiVal = fn("LLVMGetIncomingValue", P, P, U)
PhiBB = fn("LLVMGetIncomingBlock", P, P, U)
CalledValue = fn("LLVMGetCalledValue", P, P)
CalledFnType = fn("LLVMGetCalledFunctionType", P, P)
NumArgs = fn("LLVMGetNumArgOperands", U, P)
NormalDest = fn("LLVMGetNormalDest", P, P)
UnwindDest = fn("LLVMGetUnwindDest", P, P)
NumClauses = fn("LLVMGetNumClauses", U, P)
Clause = fn("LLVMGetClause", P, P, U)
IsCleanup = fn("LLVMIsCleanup", B, P)
AllocatedType = fn("LLVMGetAllocatedType", P, P)
GEPSrcTy = fn("LLVMGetGEPSourceElementType", P, P)
NumIndices = fn("LLVMGetNumIndices", U, P)
Indices = fn("LLVMGetIndices", C.POINTER(U), P)
ElementType = fn("LLVMGetElementType", P, P)
ArrayLen = fn("LLVMGetArrayLength2", C.c_uint64, P)
VecSize = fn("LLVMGetVectorSize", U, P)
StructCount = fn("LLVMCountStructElementTypes", U, P)
StructElt = fn("LLVMStructGetTypeAtIndex", P, P, U)
ConstOpcode = fn("LLVMGetConstOpcode", B, P)
ZExtVal = fn("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
FPVal = fn("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(B))
AggElt = fn("LLVMGetAggregateElement", P, P, U)
AsString = fn("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
DL = fn("LLVMGetModuleDataLayout", P, P)
ABISize = fn("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = fn("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffsetOf = fn("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
RMWOp = fn("LLVMGetAtomicRMWBinOp", B, P)
NumMask = fn("LLVMGetNumMaskElements", U, P)
MaskVal = fn("LLVMGetMaskValue", B, P, U)
RetTypeOfFn = fn("LLVMGetReturnType", P, P)
IsFnVarArg = fn("LLVMIsFunctionVarArg", B, P)
GetNSW = fn("LLVMGetNSW", B, P)
AddAttr = fn("LLVMAddAttributeAtIndex", None, P, U, P)
EnumAttrKind = fn("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t)
CreateEnumAttr = fn("LLVMCreateEnumAttribute", P, P, U, C.c_uint64)
RemoveEnumAttr = fn("LLVMRemoveEnumAttributeAtIndex", None, P, U, U)
SetComdat = fn("LLVMSetComdat", None, P, P)
GetFirstUse = fn("LLVMGetFirstUse", P, P)

def name(v):
    n = C.c_size_t()
    p = _valname(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p else ""

def pstr(v):
    p = PrintValue(v)
    s = C.string_at(p).decode()
    DisposeMsg(p)
    return s

def tstr(t):
    p = PrintType(t)
    s = C.string_at(p).decode()
    DisposeMsg(p)
    return s

_ctx = None
def load(path):
    global _ctx
    if _ctx is None:
        _ctx = ContextCreate()
    mb = P()
    err = S()
    if MemBufFile(path.encode(), C.byref(mb), C.byref(err)):
        raise RuntimeError("read %s: %s" % (path, err.value))
    m = P()
    if ParseIR(_ctx, mb, C.byref(m), C.byref(err)):
        raise RuntimeError("parse %s: %s" % (path, err.value))
    return m

def functions(m):
    f = FirstFn(m)
    while f:
        yield f
        f = NextFn(f)

def globals_(m):
    g = FirstGlobal(m)
    while g:
        yield g
        g = NextGlobal(g)

def aliases(m):
    g = FirstAlias(m)
    while g:
        yield g
        g = NextAlias(g)

def add_noinline(f):
    k = EnumAttrKind(b"alwaysinline", 12)
    RemoveEnumAttr(f, 0xFFFFFFFF, k)
    for n in (b"noinline",):
        AddAttr(f, 0xFFFFFFFF, CreateEnumAttr(_ctx, EnumAttrKind(n, len(n)), 0))

def drop_body(f):
    """Turn a definition into a declaration."""
    while True:
        bb = FirstBB(f)
        if not bb:
            break
        # delete from last to first is not needed: LLVMDeleteBasicBlock drops uses
        DeleteBB(bb)
    SetLinkage(f, 0)
