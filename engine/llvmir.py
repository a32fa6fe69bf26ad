"""LLVM IR reader over the LLVM-C API (ctypes): bitcode file -> plain Python objects.

Nothing here interprets the program; it only exposes what the compiler produced.
"""
import ctypes as C
import struct

_L = None

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem',
       18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp',
       44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 4: 'indirectbr'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno',
        9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


def lib():
    global _L
    if _L is None:
        L = C.CDLL('libLLVM-18.so.1') if False else C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')
        P = C.c_void_p

        def f(name, res, *args):
            fn = getattr(L, name)
            fn.restype = res
            fn.argtypes = list(args)
        f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
        f('LLVMContextCreate', P)
        f('LLVMParseBitcodeInContext2', C.c_int, P, P, C.POINTER(P))
        f('LLVMGetFirstFunction', P, P); f('LLVMGetNextFunction', P, P)
        f('LLVMGetFirstGlobal', P, P); f('LLVMGetNextGlobal', P, P)
        f('LLVMGetNamedFunction', P, P, C.c_char_p); f('LLVMGetNamedGlobal', P, P, C.c_char_p)
        f('LLVMGetFirstGlobalAlias', P, P); f('LLVMGetNextGlobalAlias', P, P); f('LLVMAliasGetAliasee', P, P)
        f('LLVMGetValueName2', P, P, C.POINTER(C.c_size_t))
        f('LLVMIsDeclaration', C.c_int, P)
        f('LLVMGetFirstBasicBlock', P, P); f('LLVMGetNextBasicBlock', P, P)
        f('LLVMGetFirstInstruction', P, P); f('LLVMGetNextInstruction', P, P)
        f('LLVMGetInstructionOpcode', C.c_int, P)
        f('LLVMTypeOf', P, P)
        f('LLVMGetTypeKind', C.c_int, P); f('LLVMGetIntTypeWidth', C.c_uint, P)
        f('LLVMGetNumOperands', C.c_int, P); f('LLVMGetOperand', P, P, C.c_uint)
        f('LLVMGetValueKind', C.c_int, P)
        f('LLVMCountParams', C.c_uint, P); f('LLVMGetParam', P, P, C.c_uint)
        f('LLVMCountIncoming', C.c_uint, P); f('LLVMGetIncomingValue', P, P, C.c_uint); f('LLVMGetIncomingBlock', P, P, C.c_uint)
        f('LLVMIsConditional', C.c_int, P); f('LLVMGetCondition', P, P)
        f('LLVMGetNumSuccessors', C.c_uint, P); f('LLVMGetSuccessor', P, P, C.c_uint)
        f('LLVMGetICmpPredicate', C.c_int, P); f('LLVMGetFCmpPredicate', C.c_int, P)
        f('LLVMGetNumIndices', C.c_uint, P); f('LLVMGetIndices', C.POINTER(C.c_uint), P)
        f('LLVMGetNumMaskElements', C.c_uint, P); f('LLVMGetMaskValue', C.c_int, P, C.c_uint)
        f('LLVMGetAllocatedType', P, P)
        f('LLVMGetGEPSourceElementType', P, P)
        f('LLVMGetCalledValue', P, P); f('LLVMGetNumArgOperands', C.c_uint, P)
        f('LLVMGetNormalDest', P, P); f('LLVMGetUnwindDest', P, P)
        f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
        f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
        f('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
        f('LLVMIsConstantString', C.c_int, P)
        f('LLVMGetAggregateElement', P, P, C.c_uint)
        f('LLVMGetConstOpcode', C.c_int, P)
        f('LLVMGlobalGetValueType', P, P); f('LLVMGetInitializer', P, P); f('LLVMIsGlobalConstant', C.c_int, P)
        f('LLVMCountStructElementTypes', C.c_uint, P); f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
        f('LLVMGetElementType', P, P); f('LLVMGetArrayLength2', C.c_uint64, P); f('LLVMGetVectorSize', C.c_uint, P)
        f('LLVMGetModuleDataLayout', P, P); f('LLVMABISizeOfType', C.c_ulonglong, P, P); f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
        f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint); f('LLVMABIAlignmentOfType', C.c_uint, P, P)
        f('LLVMPrintValueToString', P, P); f('LLVMPrintTypeToString', P, P)
        f('LLVMGetDebugLocLine', C.c_uint, P); f('LLVMGetDebugLocFilename', P, P, C.POINTER(C.c_uint))
        f('LLVMBasicBlockAsValue', P, P)
        f('LLVMGetReturnType', P, P); f('LLVMIsFunctionVarArg', C.c_int, P)
        f('LLVMGetAtomicRMWBinOp', C.c_int, P)
        f('LLVMIsAtomicSingleThread', C.c_int, P)
        _L = L
    return _L


class Ty:
    __slots__ = ('kind', 'width', 'elem', 'n', 'fields', 'offs', 'size', 'store', 'align', 'name')

    def __repr__(self):
        return self.name

    @property
    def is_fp(self):
        return self.kind in ('half', 'float', 'double', 'fp80')


class Reg:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return '%%%d' % self.id


class Cst:
    """constant operand; val is resolved by the executor (engine.const)"""
    __slots__ = ('kind', 'ty', 'data', 'cache')

    def __init__(self, kind, ty, data=None):
        self.kind = kind
        self.ty = ty
        self.data = data
        self.cache = None

    def __repr__(self):
        return 'C(%s,%r,%r)' % (self.kind, self.ty, self.data)


class Inst:
    __slots__ = ('op', 'ty', 'id', 'ops', 'x', 'line', 'file', 'fn', 'bb')

    def __repr__(self):
        return '%%%s = %s %s %s %s' % (self.id, self.op, self.ty, self.ops, self.x)


class Block:
    __slots__ = ('idx', 'insts', 'phis', 'succs', 'preds', 'fn')

    def __repr__(self):
        return 'bb%d' % self.idx


class Function:
    pass


FPK = {1: ('half', 16), 2: ('float', 32), 3: ('double', 64), 4: ('fp80', 80)}


class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError('cannot read %s: %s' % (path, msg.value))
        m = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(m)):
            raise RuntimeError('cannot parse ' + path)
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.tycache = {}
        self.fncache = {}
        self.fnptr = {}
        self.gvptr = {}
        self.alias = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            self.fnptr[self.name(f)] = f
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.gvptr[self.name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.alias[self.name(a)] = self.name(L.LLVMAliasGetAliasee(a))
            a = L.LLVMGetNextGlobalAlias(a)

    def name(self, v):
        n = C.c_size_t()
        p = lib().LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None:
            return r
        L = lib()
        k = L.LLVMGetTypeKind(t)
        r = Ty()
        r.width = r.elem = r.n = r.fields = r.offs = None
        r.size = r.store = r.align = 0
        p = L.LLVMPrintTypeToString(t)
        r.name = C.string_at(p).decode()[:200]
        self.tycache[t] = r
        sized = True
        if k == 8:
            r.kind = 'int'; r.width = L.LLVMGetIntTypeWidth(t)
        elif k in FPK:
            r.kind, r.width = FPK[k]
        elif k == 12:
            r.kind = 'ptr'; r.width = 64
        elif k == 10:
            r.kind = 'struct'
            n = L.LLVMCountStructElementTypes(t)
            r.fields = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            r.n = n
            if 'opaque' in r.name and n == 0:
                sized = False
            else:
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
        elif k == 11:
            r.kind = 'array'; r.elem = self.ty(L.LLVMGetElementType(t)); r.n = L.LLVMGetArrayLength2(t)
        elif k == 13:
            r.kind = 'vector'; r.elem = self.ty(L.LLVMGetElementType(t)); r.n = L.LLVMGetVectorSize(t)
        else:
            r.kind = {0: 'void', 7: 'label', 9: 'func', 14: 'metadata', 16: 'token'}.get(k, 'other%d' % k)
            sized = False
        if sized:
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.store = L.LLVMStoreSizeOfType(self.dl, t)
            r.align = L.LLVMABIAlignmentOfType(self.dl, t)
        return r

    def cst(self, v, vk):
        L = lib()
        t = self.ty(L.LLVMTypeOf(v))
        if vk == 18:
            if t.width <= 64:
                return Cst('int', t, L.LLVMConstIntGetZExtValue(v))
            s = C.string_at(L.LLVMPrintValueToString(v)).decode().split()[-1]
            return Cst('int', t, int(s) & ((1 << t.width) - 1))
        if vk == 19:
            lossy = C.c_int()
            d = L.LLVMConstRealGetDouble(v, C.byref(lossy))
            s = C.string_at(L.LLVMPrintValueToString(v)).decode().split()[-1]
            if t.kind == 'float':
                if s.startswith('0x'):
                    bits64 = int(s, 16)
                    d = struct.unpack('<d', struct.pack('<Q', bits64))[0]
                    if d != d:  # nan: keep payload
                        b = ((bits64 >> 32) & 0x80000000) | 0x7f800000 | ((bits64 >> 29) & 0x7fffff)
                        return Cst('int', t, b)
                return Cst('int', t, struct.unpack('<I', struct.pack('<f', d))[0])
            if t.kind == 'double':
                if s.startswith('0x'):
                    return Cst('int', t, int(s, 16))
                return Cst('int', t, struct.unpack('<Q', struct.pack('<d', d))[0])
            return Cst('fpother', t, s)
        if vk == 20:
            return Cst('null', t)
        if vk in (14, 25):
            return Cst('undef', t)
        if vk == 15:
            return Cst('zero', t)
        if vk == 8:
            return Cst('global', t, self.name(v))
        if vk == 5:
            return Cst('func', t, self.name(v))
        if vk == 6:
            n = self.name(v)
            tgt = self.alias[n]
            return Cst('func' if tgt in self.fnptr else 'global', t, tgt)
        if vk in (16, 17):
            if vk == 16 and L.LLVMIsConstantString(v) or (t.elem.kind == 'int' and t.elem.width == 8):
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n))
                return Cst('bytes', t, C.string_at(p, n.value))
            els = []
            for i in range(t.n):
                e = L.LLVMGetAggregateElement(v, i)
                els.append(self.operand(e))
            return Cst('agg', t, els)
        if vk in (11, 12, 13):
            return Cst('agg', t, [self.operand(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))])
        if vk == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            ops = [self.operand(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            x = None
            if op == 'gep':
                x = self.ty(L.LLVMGetGEPSourceElementType(v))
            elif op == 'icmp':
                x = ICMP[L.LLVMGetICmpPredicate(v)]
            return Cst('expr', t, (op, ops, x))
        if vk == 22:
            return Cst('meta', t)
        if vk == 23:
            return Cst('asm', t)
        if vk == 1:
            return Cst('bb', t)
        if vk == 21:
            return Cst('undef', t)
        raise NotImplementedError('constant kind %d' % vk)

    def operand(self, v, regs=None):
        L = lib()
        vk = L.LLVMGetValueKind(v)
        if vk in (24, 0):
            return regs[v]
        return self.cst(v, vk)

    def has_body(self, name):
        p = self.fnptr.get(name)
        return p is not None and not lib().LLVMIsDeclaration(p)

    def function(self, name):
        r = self.fncache.get(name)
        if r is not None:
            return r
        L = lib()
        p = self.fnptr[name]
        F = Function()
        F.name = name
        regs = {}
        n = 0
        F.args = []
        F.retty = self.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(p)))
        F.argtys = []
        for i in range(L.LLVMCountParams(p)):
            a = L.LLVMGetParam(p, i)
            regs[a] = Reg(n)
            F.args.append(n)
            F.argtys.append(self.ty(L.LLVMTypeOf(a)))
            n += 1
        blocks = {}
        order = []
        b = L.LLVMGetFirstBasicBlock(p)
        raw = []
        while b:
            B = Block()
            B.idx = len(order)
            B.insts = []
            B.phis = []
            B.succs = []
            B.preds = []
            B.fn = F
            blocks[b] = B
            order.append(B)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                regs[i] = Reg(n)
                raw.append((B, i, n))
                n += 1
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        F.nregs = n
        F.blocks = order

        def bbv(v):
            return blocks[v]
        for B, i, idn in raw:
            I = Inst()
            oc = L.LLVMGetInstructionOpcode(i)
            I.op = OPC.get(oc, 'op%d' % oc)
            I.ty = self.ty(L.LLVMTypeOf(i))
            I.id = idn
            I.line = L.LLVMGetDebugLocLine(i)
            I.file = None
            if I.line:
                nn = C.c_uint()
                fp = L.LLVMGetDebugLocFilename(i, C.byref(nn))
                if fp:
                    I.file = C.string_at(fp, nn.value).decode()
            I.fn = F
            I.bb = B
            I.x = None
            I.ops = []
            op = I.op
            if op == 'phi':
                I.x = [(bbv(L.LLVMGetIncomingBlock(i, k)), self.operand(L.LLVMGetIncomingValue(i, k), regs))
                       for k in range(L.LLVMCountIncoming(i))]
                B.phis.append(I)
                continue
            if op == 'br':
                if L.LLVMIsConditional(i):
                    I.ops = [self.operand(L.LLVMGetCondition(i), regs)]
                B.succs = [bbv(L.LLVMGetSuccessor(i, k)) for k in range(L.LLVMGetNumSuccessors(i))]
            elif op == 'switch':
                no = L.LLVMGetNumOperands(i)
                I.ops = [self.operand(L.LLVMGetOperand(i, 0), regs)]
                dflt = bbv(L.LLVMGetOperand(i, 1))
                cases = []
                for k in range(2, no, 2):
                    cv = self.operand(L.LLVMGetOperand(i, k), regs)
                    cases.append((cv.data, bbv(L.LLVMGetOperand(i, k + 1))))
                I.x = (dflt, cases)
                B.succs = [dflt] + [c[1] for c in cases]
            elif op in ('call', 'invoke'):
                na = L.LLVMGetNumArgOperands(i)
                I.ops = [self.operand(L.LLVMGetOperand(i, k), regs) for k in range(na)]
                callee = self.operand(L.LLVMGetCalledValue(i), regs)
                I.x = callee
                if op == 'invoke':
                    B.succs = [bbv(L.LLVMGetNormalDest(i)), bbv(L.LLVMGetUnwindDest(i))]
            else:
                no = L.LLVMGetNumOperands(i)
                I.ops = [self.operand(L.LLVMGetOperand(i, k), regs) for k in range(no)] if op != 'landingpad' else []
                if op == 'icmp':
                    I.x = ICMP[L.LLVMGetICmpPredicate(i)]
                elif op == 'fcmp':
                    I.x = FCMP[L.LLVMGetFCmpPredicate(i)]
                elif op in ('extractvalue', 'insertvalue'):
                    nI = L.LLVMGetNumIndices(i)
                    ix = L.LLVMGetIndices(i)
                    I.x = [ix[k] for k in range(nI)]
                elif op == 'shufflevector':
                    I.x = [L.LLVMGetMaskValue(i, k) for k in range(L.LLVMGetNumMaskElements(i))]
                elif op == 'alloca':
                    I.x = self.ty(L.LLVMGetAllocatedType(i))
                elif op == 'gep':
                    I.x = self.ty(L.LLVMGetGEPSourceElementType(i))
                elif op == 'atomicrmw':
                    I.x = L.LLVMGetAtomicRMWBinOp(i)
            B.insts.append(I)
        optys = {}
        for B, i, idn in raw:
            optys[idn] = self.ty(L.LLVMTypeOf(i))
        for k, a in enumerate(F.args):
            optys[a] = F.argtys[k]
        F.regty = optys
        for B in order:
            for s in B.succs:
                if B not in s.preds:
                    s.preds.append(B)
        self._cfg(F)
        self.fncache[name] = F
        return F

    def opty(self, F, o):
        return F.regty[o.id] if isinstance(o, Reg) else o.ty

    def _cfg(self, F):
        blocks = F.blocks
        n = len(blocks)
        # reachable rpo, ignoring unwind edges
        def succs(b):
            if b.insts and b.insts[-1].op == 'invoke':
                return b.succs[:1]
            return b.succs
        seen = set()
        post = []
        stack = [(blocks[0], iter(succs(blocks[0])))]
        seen.add(blocks[0].idx)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s.idx not in seen:
                    seen.add(s.idx)
                    stack.append((s, iter(succs(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        F.rpo = rpo
        num = {b.idx: i for i, b in enumerate(rpo)}
        preds = {b.idx: [] for b in rpo}
        for b in rpo:
            for s in succs(b):
                if b not in preds[s.idx]:
                    preds[s.idx].append(b)
        # dominators as sets (functions are small)
        def domsets(nodes, start, pr):
            allb = frozenset(x for x in nodes)
            dom = {x: set(allb) for x in nodes}
            dom[start] = {start}
            ch = True
            while ch:
                ch = False
                for x in nodes:
                    if x == start:
                        continue
                    ps = [dom[p] for p in pr[x] if p in dom]
                    nd = set.intersection(*ps) if ps else set()
                    nd = nd | {x}
                    if nd != dom[x]:
                        dom[x] = nd
                        ch = True
            return dom
        ids = [b.idx for b in rpo]
        dom = domsets(ids, rpo[0].idx, {b.idx: [p.idx for p in preds[b.idx]] for b in rpo})
        F.dom = dom
        # post-dominators with virtual exit -1; dead ends (unreachable/resume) ignored
        EXIT = -1
        rets = [b.idx for b in rpo if b.insts and b.insts[-1].op == 'ret']
        rs = {b.idx: [s.idx for s in succs(b)] for b in rpo}
        for r in rets:
            rs[r] = [EXIT]
        # blocks that can reach exit
        canr = {EXIT}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b.idx not in canr and any(s in canr for s in rs[b.idx]):
                    canr.add(b.idx)
                    ch = True
        nodes = [EXIT] + [b.idx for b in rpo[::-1] if b.idx in canr]
        pdom = domsets(nodes, EXIT, {x: ([s for s in rs[x] if s in canr] if x != EXIT else []) for x in nodes})
        F.ipdom = {}
        for x in nodes:
            if x == EXIT:
                continue
            cand = pdom[x] - {x}
            best = None
            for c in cand:
                if all(c2 in pdom[c] for c2 in cand):
                    best = c
            F.ipdom[x] = best
        # natural loops
        F.loops = {}
        for b in rpo:
            for s in succs(b):
                if s.idx in dom[b.idx]:
                    body = F.loops.setdefault(s.idx, {s.idx})
                    st = [b.idx]
                    while st:
                        y = st.pop()
                        if y in body:
                            continue
                        body.add(y)
                        st.extend(p.idx for p in preds[y])
        F.inloop = set()
        for h, body in F.loops.items():
            F.inloop |= body
        # retreating edges that are not back edges: irreducible control flow
        F.irreducible = any(num[s.idx] <= num[b.idx] and s.idx not in dom[b.idx] for b in rpo for s in succs(b))
        # loop-closed SSA: values defined in a loop leave it only through phis (merging relies on it)
        where = {}
        for b in rpo:
            for i in b.phis + b.insts:
                where[i.id] = b.idx
        for h, body in F.loops.items():
            for b in rpo:
                for ph in b.phis:
                    for pb, o in ph.x:
                        if pb.idx in num and isinstance(o, Reg) and where.get(o.id) in body and pb.idx not in body:
                            F.irreducible = True
                if b.idx in body:
                    continue
                for i in b.insts:
                    for o in i.ops:
                        if isinstance(o, Reg) and where.get(o.id) in body:
                            F.irreducible = True
        # what an exception leaving an invoke does here
        F.unwind = {}
        normal = set(num)
        for b in rpo:
            if b.insts and b.insts[-1].op == 'invoke':
                seen2 = set()
                st = [b.succs[1]]
                kind = 'propagate'
                term = prop = False
                while st:
                    x = st.pop()
                    if x.idx in seen2:
                        continue
                    seen2.add(x.idx)
                    if x.idx in normal:
                        kind = 'catch'
                        break
                    last = x.insts[-1].op
                    if last == 'resume':
                        prop = True
                    if last == 'ret':
                        kind = 'catch'
                        break
                    for i in x.insts:
                        if i.op in ('call', 'invoke') and isinstance(i.x, Cst) and i.x.kind == 'func':
                            if i.x.data == '__cxa_rethrow':
                                prop = True
                            if i.x.data in ('__clang_call_terminate', '_ZSt9terminatev'):
                                term = True
                    st.extend(x.succs)
                if kind != 'catch' and term and not prop:
                    kind = 'terminate'
                F.unwind[b.idx] = kind
