"""Loads LLVM bitcode (made by clang from /repo's current sources) through the
LLVM C API (libLLVM-18.so, ctypes) and turns it into small Python objects."""
import ctypes as C
import functools
import os

_cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
          "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"]
_lib = None
for _c in _cands:
    if os.path.exists(_c):
        _lib = C.CDLL(_c)
        break
if _lib is None:
    raise RuntimeError("libLLVM-18 not found")

P, S, U, I, LL, ULL = C.c_void_p, C.c_char_p, C.c_uint, C.c_int, C.c_longlong, C.c_ulonglong


def _f(name, res, *args):
    fn = getattr(_lib, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(P))
ParseBC = _f("LLVMParseBitcodeInContext2", I, P, P, C.POINTER(P))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
Aliasee = _f("LLVMAliasGetAliasee", P, P)
ValueName = _f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", I, P)
Linkage = _f("LLVMGetLinkage", I, P)
FirstUse = _f("LLVMGetFirstUse", P, P)
NextUse = _f("LLVMGetNextUse", P, P)
User = _f("LLVMGetUser", P, P)
IsInst = _f("LLVMIsAInstruction", P, P)
InstParent = _f("LLVMGetInstructionParent", P, P)
BBParent = _f("LLVMGetBasicBlockParent", P, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
BBName = _f("LLVMGetBasicBlockName", S, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", I, P)
NumOps = _f("LLVMGetNumOperands", I, P)
Operand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", I, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
ElemType = _f("LLVMGetElementType", P, P)
ArrayLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecLen = _f("LLVMGetVectorSize", U, P)
NumStructElems = _f("LLVMCountStructElementTypes", U, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, U)
IsOpaque = _f("LLVMIsOpaqueStruct", I, P)
StructName = _f("LLVMGetStructName", S, P)
TypeByName = _f("LLVMGetTypeByName2", P, P, S)
ModuleDL = _f("LLVMGetModuleDataLayout", P, P)
OffsetOf = _f("LLVMOffsetOfElement", ULL, P, P, U)
ABISize = _f("LLVMABISizeOfType", ULL, P, P)
ValueKind = _f("LLVMGetValueKind", I, P)
IntZext = _f("LLVMConstIntGetZExtValue", ULL, P)
PrintVal = _f("LLVMPrintValueToString", P, P)
DisposeMsg = _f("LLVMDisposeMessage", None, P)
ICmpPred = _f("LLVMGetICmpPredicate", I, P)
FCmpPred = _f("LLVMGetFCmpPredicate", I, P)
ConstOpcode = _f("LLVMGetConstOpcode", I, P)
Initializer = _f("LLVMGetInitializer", P, P)
IsGlobalConst = _f("LLVMIsGlobalConstant", I, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
AggElem = _f("LLVMGetAggregateElement", P, P, U)
IsConstString = _f("LLVMIsConstantString", I, P)
GetAsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
IsNull = _f("LLVMIsNull", I, P)
IsUndef = _f("LLVMIsUndef", I, P)
GEPSrcType = _f("LLVMGetGEPSourceElementType", P, P)
NumIndices = _f("LLVMGetNumIndices", U, P)
Indices = _f("LLVMGetIndices", C.POINTER(U), P)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, U)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
NumClauses = _f("LLVMGetNumClauses", U, P)
Clause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", I, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", U, P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
GetNSW = _f("LLVMGetNSW", I, P)
GetNUW = _f("LLVMGetNUW", I, P)
GetExact = _f("LLVMGetExact", I, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
DebugLine = _f("LLVMGetDebugLocLine", U, P)
DebugFile = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(U))
NumSucc = _f("LLVMGetNumSuccessors", U, P)
Succ = _f("LLVMGetSuccessor", P, P, U)
IsConditional = _f("LLVMIsConditional", I, P)
ReturnType = _f("LLVMGetReturnType", P, P)
SwitchDefault = _f("LLVMGetSwitchDefaultDest", P, P)
Terminator = _f("LLVMGetBasicBlockTerminator", P, P)
FnIntrinsic = _f("LLVMGetIntrinsicID", U, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and',
       24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc',
       31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad',
       66: 'fneg', 67: 'callbr', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge',
        40: 'slt', 41: 'sle'}
# LLVMValueKind
VK_ARG, VK_BB, VK_FN, VK_ALIAS, VK_GVAR, VK_CEXPR, VK_CARRAY, VK_CSTRUCT, VK_CVECTOR, VK_UNDEF, \
    VK_CAZ, VK_CDA, VK_CDV, VK_CINT, VK_CFP, VK_NULLPTR = 0, 1, 5, 6, 8, 10, 11, 12, 13, 14, 15, 16, 17, \
    18, 19, 20


class Ty:
    __slots__ = ("kind", "w", "elem", "n", "elems", "offs", "size", "name")

    def __repr__(self):
        if self.kind == 'int':
            return f"i{self.w}"
        if self.kind == 'array':
            return f"[{self.n} x {self.elem}]"
        if self.kind == 'struct':
            return "{" + ",".join(map(str, self.elems)) + "}"
        return self.kind


# operand forms: ('c', int, w) ('l', id) local/instr/arg, ('g', name) global, ('null',),
# ('undef', ty), ('gep', operand, Ty, [operands]), ('agg', ty, [ops]), ('str', bytes), ('zero', ty),
# ('fp', text), ('cast', opname, operand, ty)
class Instr:
    __slots__ = ("op", "id", "ty", "ops", "x", "line", "name")

    def __repr__(self):
        return f"%{self.id}={self.op} {self.ty} {self.ops} {self.x}"


class Block:
    __slots__ = ("idx", "name", "instrs", "succs", "preds")


class Function:
    __slots__ = ("mod", "name", "ref", "decl", "internal", "_blocks", "_params", "retty", "_loops", "file",
                 "demangled", "canon")

    @property
    def blocks(self):
        if self._blocks is None:
            self.mod._load_fn(self)
        return self._blocks

    @property
    def params(self):
        if self._params is None:
            self.mod._load_params(self)
        return self._params


def _name(v):
    n = C.c_size_t()
    p = ValueName(v, C.byref(n))
    return C.string_at(p, n.value).decode()


class Global:
    __slots__ = ("mod", "name", "ref", "decl", "const", "ty", "_init", "internal")

    @property
    def init(self):
        if self._init is None:
            self._init = None if self.decl else self.mod._const(Initializer(self.ref))
        return self._init


def uses(v):
    """instructions that use a global, directly or through constant expressions: [(opcode, function, operand 0 is it)]"""
    out = []
    u = FirstUse(v)
    while u:
        x = User(u)
        if IsInst(x):
            out.append((OPC[Opcode(x)], _name(BBParent(InstParent(x)))))
        else:
            out += uses(x) or [('const', '')]
        u = NextUse(u)
    return out


class Module:
    def __init__(self, path, label=""):
        self.label = label
        ctx = ContextCreate()
        buf, err = P(), P()
        if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if ParseBC(ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m, self.ctx = m, ctx
        self.dl = ModuleDL(m)
        self._types = {}
        self.functions, self.globals, self.aliases = {}, {}, {}
        f = FirstFn(m)
        while f:
            fn = Function()
            fn.mod, fn.name, fn.ref = self, _name(f), f
            fn.decl = bool(IsDecl(f))
            fn.internal = Linkage(f) in (8, 9)
            fn._blocks = fn._params = fn._loops = None
            fn.demangled = fn.canon = None
            self.functions[fn.name] = fn
            f = NextFn(f)
        g = FirstGlobal(m)
        while g:
            o = Global()
            o.mod, o.name, o.ref = self, _name(g), g
            o.decl = bool(IsDecl(g))
            o.const = bool(IsGlobalConst(g))
            o.internal = Linkage(g) in (8, 9)
            o.ty = self.ty(GlobalValueType(g))
            o._init = None
            self.globals[o.name] = o
            g = NextGlobal(g)
        a = FirstAlias(m)
        while a:
            self.aliases[_name(a)] = _name(Aliasee(a))
            a = NextAlias(a)

    # -- types
    def named(self, name):
        t = TypeByName(self.ctx, name.encode())
        return self.ty(t) if t else None

    def ty(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        k = TypeKind(t)
        r = Ty()
        r.w = r.elem = r.n = r.elems = r.offs = r.name = None
        self._types[t] = r
        r.size = 0
        if k == 0:
            r.kind = 'void'
        elif k in (1, 2, 3, 4, 5, 6):
            r.kind = 'float'
            r.size = ABISize(self.dl, t)
        elif k == 8:
            r.kind = 'int'
            r.w = IntWidth(t)
            r.size = ABISize(self.dl, t)
        elif k == 9:
            r.kind = 'func'
        elif k == 10:
            r.kind = 'struct'
            if IsOpaque(t):
                r.elems, r.offs = [], []
            else:
                n = NumStructElems(t)
                r.elems = [self.ty(StructElem(t, i)) for i in range(n)]
                r.offs = [OffsetOf(self.dl, t, i) for i in range(n)]
                r.size = ABISize(self.dl, t)
            nm = StructName(t)
            r.name = nm.decode() if nm else None
        elif k == 11:
            r.kind = 'array'
            r.elem = self.ty(ElemType(t))
            r.n = ArrayLen(t)
            r.size = ABISize(self.dl, t)
        elif k == 12:
            r.kind = 'ptr'
            r.size = 8
        elif k == 13:
            r.kind = 'vector'
            r.elem = self.ty(ElemType(t))
            r.n = VecLen(t)
            r.size = ABISize(self.dl, t)
        else:
            r.kind = 'other%d' % k
        return r

    # -- constants
    def _const(self, v):
        k = ValueKind(v)
        t = self.ty(TypeOf(v))
        if k == VK_CINT:
            if t.w > 64:
                p = PrintVal(v)
                s = C.string_at(p).decode()
                DisposeMsg(p)
                return ('c', int(s.split()[-1]) % (1 << t.w), t.w)
            return ('c', IntZext(v) % (1 << t.w), t.w)
        if k in (VK_FN, VK_GVAR, VK_ALIAS):
            return ('g', _name(v))
        if k == VK_NULLPTR:
            return ('null',)
        if k == VK_CAZ:
            return ('zero', t)
        if k == VK_CFP:
            p = PrintVal(v)
            s = C.string_at(p).decode()
            DisposeMsg(p)
            return ('fp', s.split()[-1])
        if k in (VK_CDA, VK_CDV):
            if IsConstString(v):
                n = C.c_size_t()
                p = GetAsString(v, C.byref(n))
                return ('str', C.string_at(p, n.value))
            return ('agg', t, [self._const(AggElem(v, i)) for i in range(t.n)])
        if k in (VK_CARRAY, VK_CVECTOR):
            return ('agg', t, [self._const(Operand(v, i)) for i in range(t.n)])
        if k == VK_CSTRUCT:
            return ('agg', t, [self._const(Operand(v, i)) for i in range(len(t.elems))])
        if k == VK_CEXPR:
            op = OPC.get(ConstOpcode(v))
            if op == 'gep':
                n = NumOps(v)
                return ('gep', self._const(Operand(v, 0)), self.ty(GEPSrcType(v)),
                        [self._const(Operand(v, i)) for i in range(1, n)])
            n = NumOps(v)
            return ('cexpr', op, [self._const(Operand(v, i)) for i in range(n)], t)
        if IsUndef(v) or k == VK_UNDEF:
            return ('undef', t)
        if t.kind == 'other%d' % 14 or t.kind.startswith('other'):
            return ('meta',)
        return ('undef', t)  # poison

    def _op(self, v, ids):
        r = ids.get(v)
        if r is not None:
            return ('l', r)
        return self._const(v)

    def _load_params(self, fn):
        n = CountParams(fn.ref)
        fn._params = [(i, self.ty(TypeOf(GetParam(fn.ref, i))), _name(GetParam(fn.ref, i))) for i in range(n)]
        fn.retty = self.ty(ReturnType(GlobalValueType(fn.ref)))

    def _load_fn(self, fn):
        self._load_params(fn)
        ids = {}
        for i in range(len(fn._params)):
            ids[GetParam(fn.ref, i)] = i
        nxt = len(fn._params)
        bbs = {}
        blocks = []
        b = FirstBB(fn.ref)
        raw = []
        while b:
            bl = Block()
            bl.idx = len(blocks)
            bl.name = BBName(b).decode()
            bl.instrs = []
            bl.preds = []
            bbs[b] = bl.idx
            blocks.append(bl)
            ins = []
            i = FirstInst(b)
            while i:
                ids[i] = nxt
                nxt += 1
                ins.append(i)
                i = NextInst(i)
            raw.append(ins)
            b = NextBB(b)
        fn.file = None
        for bl, ins in zip(blocks, raw):
            for i in ins:
                o = Instr()
                o.op = OPC[Opcode(i)]
                o.id = ids[i]
                o.ty = self.ty(TypeOf(i))
                o.x = None
                o.name = None
                o.line = 0
                op = o.op
                o.line = DebugLine(i) if op != 'phi' else 0
                if op in ('call', 'invoke'):
                    na = NumArgOps(i)
                    callee = self._op(CalledValue(i), ids) if ValueKind(CalledValue(i)) != 21 else ('asm',)
                    o.ops = []
                    for k in range(na):
                        a = Operand(i, k)
                        if ValueKind(a) in (22, 23) or TypeKind(TypeOf(a)) == 14:
                            o.ops.append(('meta',))
                        else:
                            o.ops.append(self._op(a, ids))
                    o.x = {'callee': callee, 'argtys': [self.ty(TypeOf(Operand(i, k))) for k in range(na)]}
                    if op == 'invoke':
                        o.x['normal'] = bbs[NormalDest(i)]
                        o.x['unwind'] = bbs[UnwindDest(i)]
                elif op == 'br':
                    if IsConditional(i):
                        o.ops = [self._op(Operand(i, 0), ids)]
                        o.x = [bbs[Succ(i, 0)], bbs[Succ(i, 1)]]
                    else:
                        o.ops = []
                        o.x = [bbs[Succ(i, 0)]]
                elif op == 'switch':
                    n = NumOps(i)
                    o.ops = [self._op(Operand(i, 0), ids)]
                    dflt = bbs[ValueAsBB(Operand(i, 1))]
                    cases = [(self._const(Operand(i, k))[1], bbs[ValueAsBB(Operand(i, k + 1))])
                             for k in range(2, n, 2)]
                    o.x = (dflt, cases)
                elif op == 'phi':
                    o.ops = []
                    o.x = [(bbs[IncomingBlock(i, k)], self._op(IncomingValue(i, k), ids))
                           for k in range(CountIncoming(i))]
                elif op == 'landingpad':
                    o.ops = []
                    o.x = (bool(IsCleanup(i)), [self._const(Clause(i, k)) for k in range(NumClauses(i))])
                else:
                    o.ops = [self._op(Operand(i, k), ids) for k in range(NumOps(i))]
                    if op == 'icmp':
                        o.x = (ICMP[ICmpPred(i)], self.ty(TypeOf(Operand(i, 0))))
                    elif op == 'fcmp':
                        o.x = FCmpPred(i)
                    elif op == 'gep':
                        o.x = self.ty(GEPSrcType(i))
                    elif op in ('extractvalue', 'insertvalue'):
                        n = NumIndices(i)
                        p = Indices(i)
                        o.x = [p[k] for k in range(n)]
                        o.name = self.ty(TypeOf(Operand(i, 0)))
                    elif op == 'alloca':
                        o.x = self.ty(AllocatedType(i))
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        o.x = (bool(GetNSW(i)), bool(GetNUW(i)))
                    elif op in ('sdiv', 'udiv', 'lshr', 'ashr'):
                        o.x = bool(GetExact(i))
                    elif op == 'store':
                        o.x = self.ty(TypeOf(Operand(i, 0)))
                    elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'switch',
                                'atomicrmw', 'cmpxchg'):
                        o.x = self.ty(TypeOf(Operand(i, 0))) if op not in ('atomicrmw', 'cmpxchg') else \
                            self.ty(TypeOf(Operand(i, 1)))
                if fn.file is None and o.line:
                    n = U()
                    p = DebugFile(i, C.byref(n))
                    if p:
                        fn.file = C.string_at(p, n.value).decode()
                bl.instrs.append(o)
        for bl in blocks:
            t = bl.instrs[-1]
            if t.op == 'br':
                bl.succs = list(t.x)
            elif t.op == 'switch':
                bl.succs = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                bl.succs = [t.x['normal'], t.x['unwind']]
            else:
                bl.succs = []
            for s in bl.succs:
                blocks[s].preds.append(bl.idx)
        fn._blocks = blocks

    def _loops_of(self, fn):
        """natural loops: header -> set of blocks (merging back edges to the same header)"""
        if fn._loops is not None:
            return fn._loops
        bl = fn.blocks
        n = len(bl)
        # dominators (iterative)
        order, seen = [], set()
        st = [(0, iter(bl[0].succs))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(bl[s].succs)))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in bl[b].preds if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while pos[x] > pos[y]:
                            x = idom[x]
                        while pos[y] > pos[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in bl[b].succs:
                if s in pos and dom(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(p for p in bl[x].preds if p in pos)
        fn._loops = loops
        return loops


_dem = C.CDLL("libstdc++.so.6").__cxa_demangle
_dem.restype = C.c_void_p
_dem.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
_free = C.CDLL(None).free
_free.argtypes = [C.c_void_p]


@functools.lru_cache(maxsize=None)
def demangle(n):
    st = C.c_int()
    p = _dem(n.encode(), None, None, C.byref(st))
    if not p:
        return n
    s = C.string_at(p).decode()
    _free(p)
    return s
