"""ctypes bindings to the LLVM-C API: reads the bitcode clang produced from /repo."""
import ctypes as C

_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM.so.1')
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _f('LLVMContextCreate', P)
MemBufFile = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetModuleDataLayout = _f('LLVMGetModuleDataLayout', P, P)
FirstFunction = _f('LLVMGetFirstFunction', P, P)
NextFunction = _f('LLVMGetNextFunction', P, P)
FirstGlobal = _f('LLVMGetFirstGlobal', P, P)
NextGlobal = _f('LLVMGetNextGlobal', P, P)
NamedFunction = _f('LLVMGetNamedFunction', P, P, C.c_char_p)
NamedGlobal = _f('LLVMGetNamedGlobal', P, P, C.c_char_p)
_GetValueName = _f('LLVMGetValueName2', C.c_void_p, P, C.POINTER(C.c_size_t))
IsDeclaration = _f('LLVMIsDeclaration', C.c_int, P)
IsGlobalConstant = _f('LLVMIsGlobalConstant', C.c_int, P)
GetInitializer = _f('LLVMGetInitializer', P, P)
GlobalValueType = _f('LLVMGlobalGetValueType', P, P)
GetAlignment = _f('LLVMGetAlignment', C.c_uint, P)
AliasGetAliasee = _f('LLVMAliasGetAliasee', P, P)
CountParams = _f('LLVMCountParams', C.c_uint, P)
GetParam = _f('LLVMGetParam', P, P, C.c_uint)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P)
NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstInst = _f('LLVMGetFirstInstruction', P, P)
NextInst = _f('LLVMGetNextInstruction', P, P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
ConstOpcode = _f('LLVMGetConstOpcode', C.c_int, P)
NumOperands = _f('LLVMGetNumOperands', C.c_int, P)
Operand = _f('LLVMGetOperand', P, P, C.c_uint)
TypeOf = _f('LLVMTypeOf', P, P)
ValueKind = _f('LLVMGetValueKind', C.c_int, P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, P)
IntWidth = _f('LLVMGetIntTypeWidth', C.c_uint, P)
ElementType = _f('LLVMGetElementType', P, P)
ArrayLength = _f('LLVMGetArrayLength2', C.c_uint64, P)
VectorSize = _f('LLVMGetVectorSize', C.c_uint, P)
CountStruct = _f('LLVMCountStructElementTypes', C.c_uint, P)
StructType = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
ABIAlign = _f('LLVMABIAlignmentOfType', C.c_uint, P, P)
OffsetOf = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
ConstZExt = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
ConstDouble = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
AggElt = _f('LLVMGetAggregateElement', P, P, C.c_uint)
PrintValue = _f('LLVMPrintValueToString', C.c_void_p, P)
DisposeMsg = _f('LLVMDisposeMessage', None, C.c_void_p)
GEPSrcType = _f('LLVMGetGEPSourceElementType', P, P)
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, P)
FCmpPred = _f('LLVMGetFCmpPredicate', C.c_int, P)
CountIncoming = _f('LLVMCountIncoming', C.c_uint, P)
IncomingValue = _f('LLVMGetIncomingValue', P, P, C.c_uint)
IncomingBlock = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
CalledValue = _f('LLVMGetCalledValue', P, P)
NumArgOperands = _f('LLVMGetNumArgOperands', C.c_uint, P)
CalledFnType = _f('LLVMGetCalledFunctionType', P, P)
ReturnType = _f('LLVMGetReturnType', P, P)
NumSuccessors = _f('LLVMGetNumSuccessors', C.c_uint, P)
Successor = _f('LLVMGetSuccessor', P, P, C.c_uint)
NormalDest = _f('LLVMGetNormalDest', P, P)
UnwindDest = _f('LLVMGetUnwindDest', P, P)
IsConditional = _f('LLVMIsConditional', C.c_int, P)
AllocatedType = _f('LLVMGetAllocatedType', P, P)
NumIndices = _f('LLVMGetNumIndices', C.c_uint, P)
GetIndices = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
NumMask = _f('LLVMGetNumMaskElements', C.c_uint, P)
MaskValue = _f('LLVMGetMaskValue', C.c_int, P, C.c_uint)
NumClauses = _f('LLVMGetNumClauses', C.c_uint, P)
GetClause = _f('LLVMGetClause', P, P, C.c_uint)
IsCleanup = _f('LLVMIsCleanup', C.c_int, P)
BBAsValue = _f('LLVMBasicBlockAsValue', P, P)
ValueAsBB = _f('LLVMValueAsBasicBlock', P, P)
RMWOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)


def name(v):
    n = C.c_size_t()
    p = _GetValueName(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p else ''


def text(v):
    p = PrintValue(v)
    s = C.string_at(p).decode(errors='replace')
    DisposeMsg(p)
    return s


def load(path):
    ctx = ContextCreate()
    buf = P()
    msg = C.c_char_p()
    if MemBufFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError('cannot read %s: %s' % (path, msg.value))
    mod = P()
    if ParseIR(ctx, buf, C.byref(mod), C.byref(msg)):
        raise RuntimeError('cannot parse %s: %s' % (path, msg.value))
    return mod.value
