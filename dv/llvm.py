"""LLVM-IR front end: loads a module through libLLVM's C API (ctypes) and turns it into plain Python
objects.  Nothing here interprets the program; it is a faithful transcription of the instructions that
clang generated from /repo's current source."""
import ctypes as C, os, subprocess, re, glob

_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
                  "/usr/lib/llvm-18/lib/libLLVM.so.1"):
            if os.path.exists(p):
                _LIB = C.CDLL(p)
                break
        if _LIB is None:
            raise RuntimeError("libLLVM-18 not found")
        P, U, I, S = C.c_void_p, C.c_uint, C.c_int, C.c_char_p
        sig = {
            "LLVMContextCreate": (P, []), "LLVMContextDispose": (None, [P]),
            "LLVMCreateMemoryBufferWithContentsOfFile": (I, [S, C.POINTER(P), C.POINTER(S)]),
            "LLVMParseIRInContext": (I, [P, P, C.POINTER(P), C.POINTER(S)]),
            "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
            "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
            "LLVMGetFirstGlobalAlias": (P, [P, ]), "LLVMGetNextGlobalAlias": (P, [P]),
            "LLVMAliasGetAliasee": (P, [P]),
            "LLVMGetValueName2": (S, [P, C.POINTER(C.c_size_t)]),
            "LLVMIsDeclaration": (I, [P]), "LLVMCountParams": (U, [P]), "LLVMGetParam": (P, [P, U]),
            "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (I, [P]), "LLVMGetIntTypeWidth": (U, [P]),
            "LLVMGetStructName": (S, [P]), "LLVMCountStructElementTypes": (U, [P]),
            "LLVMStructGetTypeAtIndex": (P, [P, U]), "LLVMGetElementType": (P, [P]),
            "LLVMGetArrayLength2": (C.c_uint64, [P]), "LLVMGetVectorSize": (U, [P]),
            "LLVMGetReturnType": (P, [P]), "LLVMGlobalGetValueType": (P, [P]),
            "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
            "LLVMGetBasicBlockName": (S, [P]), "LLVMGetFirstInstruction": (P, [P]),
            "LLVMGetNextInstruction": (P, [P]), "LLVMGetInstructionOpcode": (I, [P]),
            "LLVMGetNumOperands": (I, [P]), "LLVMGetOperand": (P, [P, U]),
            "LLVMGetValueKind": (I, [P]), "LLVMConstIntGetZExtValue": (C.c_uint64, [P]),
            "LLVMConstRealGetDouble": (C.c_double, [P, C.POINTER(I)]),
            "LLVMGetConstOpcode": (I, [P]), "LLVMGetICmpPredicate": (I, [P]), "LLVMGetFCmpPredicate": (I, [P]),
            "LLVMCountIncoming": (U, [P]), "LLVMGetIncomingValue": (P, [P, U]), "LLVMGetIncomingBlock": (P, [P, U]),
            "LLVMGetNumSuccessors": (U, [P]), "LLVMGetSuccessor": (P, [P, U]), "LLVMIsConditional": (I, [P]),
            "LLVMGetCondition": (P, [P]), "LLVMGetCalledValue": (P, [P]), "LLVMGetNumArgOperands": (U, [P]),
            "LLVMGetNumIndices": (U, [P]), "LLVMGetIndices": (C.POINTER(U), [P]),
            "LLVMGetAllocatedType": (P, [P]), "LLVMGetGEPSourceElementType": (P, [P]),
            "LLVMGetModuleDataLayout": (P, [P]), "LLVMABISizeOfType": (C.c_ulonglong, [P, P]),
            "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, U]), "LLVMStoreSizeOfType": (C.c_ulonglong, [P, P]),
            "LLVMGetAtomicRMWBinOp": (I, [P]), "LLVMGetInitializer": (P, [P]), "LLVMIsGlobalConstant": (I, [P]),
            "LLVMIsConstantString": (I, [P]), "LLVMGetAsString": (P, [P, C.POINTER(C.c_size_t)]),
            "LLVMGetAggregateElement": (P, [P, U]), "LLVMGetDebugLocLine": (U, [P]),
            "LLVMGetNSW": (I, [P]), "LLVMGetNUW": (I, [P]), "LLVMGetVolatile": (I, [P]),
            "LLVMGetLinkage": (I, [P]), "LLVMPrintValueToString": (P, [P]), "LLVMDisposeMessage": (None, [P]),
            "LLVMGetDebugLocFilename": (P, [P, C.POINTER(U)]),
            "LLVMPrintTypeToString": (P, [P]), "LLVMGetOrdering": (I, [P]), "LLVMGetCmpXchgSuccessOrdering": (I, [P]), "LLVMGetWeak": (I, [P]),
            "LLVMGetSwitchDefaultDest": (P, [P]),
        }
        for n, (r, a) in sig.items():
            f = getattr(_LIB, n)
            f.restype, f.argtypes = r, a
    return _LIB


OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast",
       42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "vaarg", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 67: "callbr"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax", 10: "umin"}


class Ty:
    __slots__ = ("kind", "bits", "name", "elems", "elem", "count", "size", "offsets", "ret")

    def __repr__(self):
        return f"{self.kind}{self.bits or ''}{self.name or ''}"


class Const:
    """kind: int(val,bits) null undef global(name) func(name) expr(op, ops) fp(val) zero agg(elems) bytes"""
    __slots__ = ("kind", "val", "ty", "ops", "extra")

    def __init__(self, kind, val=None, ty=None, ops=None, extra=None):
        self.kind, self.val, self.ty, self.ops, self.extra = kind, val, ty, ops, extra

    def __repr__(self):
        return f"C<{self.kind}:{self.val if self.val is not None else self.ops}>"


class Arg:
    __slots__ = ("idx", "ty", "name")

    def __init__(self, idx, ty, name):
        self.idx, self.ty, self.name = idx, ty, name

    def __repr__(self):
        return f"%{self.name}"


class Inst:
    __slots__ = ("op", "ty", "ops", "extra", "name", "line", "block", "id", "fn", "order", "weak")

    def __repr__(self):
        return f"%{self.name or self.id}={self.op}"


class Block:
    __slots__ = ("name", "insts", "succs", "preds", "idx", "is_header", "loop")

    def __repr__(self):
        return f"bb:{self.name or self.idx}"


class Fn:
    def __init__(self):
        self.loops = {}

    def __repr__(self):
        return f"fn:{self.dem}"


def demangle_all(names):
    names = list(names)
    if not names:
        return {}
    r = subprocess.run(["c++filt"], input="\n".join(names) + "\n", capture_output=True, text=True)
    return dict(zip(names, r.stdout.split("\n")))


class Module:
    def __init__(self, path):
        L = lib()
        self.path = path
        ctx = L.LLVMContextCreate()
        buf, err = C.c_void_p(), C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(f"cannot read {path}: {err.value}")
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError(f"cannot parse {path}: {err.value}")
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.tycache = {}
        self.fns = {}
        self.globals = {}
        self.raw = {}
        self.aliases = {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            n = self.vname(f)
            self.raw[n] = f
            f = L.LLVMGetNextFunction(f)
        f = L.LLVMGetFirstGlobalAlias(mod)
        while f:
            self.aliases[self.vname(f)] = self.vname(L.LLVMAliasGetAliasee(f))
            f = L.LLVMGetNextGlobalAlias(f)
        self.rawglobals = {}
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            self.rawglobals[self.vname(g)] = g
            g = L.LLVMGetNextGlobal(g)
        self.dem = demangle_all(list(self.raw) + list(self.aliases))
        self.bydem = {}
        for n, d in self.dem.items():
            self.bydem.setdefault(d, n)
            # prefer definitions
            if n in self.raw and not L.LLVMIsDeclaration(self.raw[n]):
                self.bydem[d] = n

    # -- helpers
    def vname(self, v):
        ln = C.c_size_t()
        s = lib().LLVMGetValueName2(v, C.byref(ln))
        return s.decode() if s else ""

    def ty(self, t):
        if t in self.tycache:
            return self.tycache[t]
        L = lib()
        k = L.LLVMGetTypeKind(t)
        r = Ty()
        r.bits = r.name = r.elems = r.elem = r.count = r.offsets = r.ret = None
        r.size = None
        self.tycache[t] = r
        if k == 0: r.kind = "void"
        elif k in (2, 3, 4): r.kind = {2: "float", 3: "double", 4: "fp80"}[k]; r.size = {2: 4, 3: 8, 4: 16}[k]
        elif k == 7: r.kind = "label"
        elif k == 8: r.kind = "int"; r.bits = L.LLVMGetIntTypeWidth(t); r.size = L.LLVMStoreSizeOfType(self.dl, t)
        elif k == 9: r.kind = "func"; r.ret = self.ty(L.LLVMGetReturnType(t))
        elif k == 10:
            r.kind = "struct"
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else None
            try:
                n = L.LLVMCountStructElementTypes(t)
                r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
                if n and any(e.size is None for e in r.elems):
                    r.offsets = None
                else:
                    r.size = L.LLVMABISizeOfType(self.dl, t)
                    r.offsets = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                pass
        elif k == 11:
            r.kind = "array"; r.elem = self.ty(L.LLVMGetElementType(t)); r.count = L.LLVMGetArrayLength2(t)
            r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == 12: r.kind = "ptr"; r.size = 8
        elif k == 13:
            r.kind = "vector"; r.elem = self.ty(L.LLVMGetElementType(t)); r.count = L.LLVMGetVectorSize(t)
            r.size = L.LLVMABISizeOfType(self.dl, t)
        else: r.kind = f"other{k}"
        return r

    def const(self, v):
        L = lib()
        k = L.LLVMGetValueKind(v)
        ty = self.ty(L.LLVMTypeOf(v))
        if k == 18:
            if ty.bits <= 64:
                return Const("int", L.LLVMConstIntGetZExtValue(v) & ((1 << ty.bits) - 1), ty)
            s = self._print(v)  # i128 5
            return Const("int", int(s.split()[-1]) & ((1 << ty.bits) - 1), ty)
        if k == 20: return Const("null", None, ty)
        if k in (14, 25): return Const("undef", None, ty)
        if k == 5: return Const("func", self.vname(v), ty)
        if k == 6:
            return Const("func", self.vname(v), ty)
        if k == 8: return Const("global", self.vname(v), ty)
        if k == 19:
            li = C.c_int()
            return Const("fp", L.LLVMConstRealGetDouble(v, C.byref(li)), ty)
        if k == 15: return Const("zero", None, ty)
        if k == 16:
            if ty.elem.kind == "int" and ty.elem.bits == 8:
                ln = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(ln))
                return Const("bytes", C.string_at(p, ln.value), ty)
            return Const("agg", [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(ty.count)], ty)
        if k in (11, 12, 13, 17):
            n = ty.count if ty.kind in ("array", "vector") else len(ty.elems)
            return Const("agg", [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)], ty)
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v), "?")
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            extra = None
            if op == "gep":
                extra = self.gep(v, [None] + ops[1:])
            elif op == "icmp":
                extra = ICMP[L.LLVMGetICmpPredicate(v)]
            return Const("expr", op, ty, ops, extra)
        if k == 23: return Const("asm", self._print(v), ty)
        if k == 22: return Const("meta", None, ty)
        return Const("unknown", k, ty)

    def _print(self, v):
        L = lib()
        p = L.LLVMPrintValueToString(v)
        s = C.string_at(p).decode()
        L.LLVMDisposeMessage(p)
        return s

    def gep(self, v, ops):
        """-> list of (kind, ...) : ('c', bytes) | ('v', operand, stride)"""
        L = lib()
        t = self.ty(L.LLVMGetGEPSourceElementType(v))
        out = []
        first = True
        for o in ops[1:]:
            if first:
                stride = t.size
                first = False
            elif t.kind == "struct":
                assert isinstance(o, Const)
                out.append(("c", t.offsets[o.val]))
                t = t.elems[o.val]
                continue
            else:
                t = t.elem
                stride = t.size
            if isinstance(o, Const) and o.kind == "int":
                val = o.val
                if val >= 1 << (o.ty.bits - 1): val -= 1 << o.ty.bits
                if val: out.append(("c", val * stride))
            else:
                out.append(("v", o, stride))
        return out

    def glob(self, name):
        """(type, initializer Const or None, is_const)"""
        L = lib()
        if name not in self.globals:
            g = self.rawglobals[name]
            ty = self.ty(L.LLVMGlobalGetValueType(g))
            init = None
            if not L.LLVMIsDeclaration(g):
                i = L.LLVMGetInitializer(g)
                init = self.const(i) if i else None
            self.globals[name] = (ty, init, bool(L.LLVMIsGlobalConstant(g)))
        return self.globals[name]

    def has(self, name):
        name = self.aliases.get(name, name)
        return name in self.raw and not lib().LLVMIsDeclaration(self.raw[name])

    def fn(self, name):
        name = self.aliases.get(name, name)
        if name in self.fns:
            return self.fns[name]
        L = lib()
        raw = self.raw[name]
        f = Fn()
        self.fns[name] = f
        f.name, f.dem, f.module = name, self.dem.get(name, name), self
        f.decl = bool(L.LLVMIsDeclaration(raw))
        fty = self.ty(L.LLVMGlobalGetValueType(raw))
        f.ret = fty.ret
        vals = {}
        f.args = []
        for i in range(L.LLVMCountParams(raw)):
            p = L.LLVMGetParam(raw, i)
            a = Arg(i, self.ty(L.LLVMTypeOf(p)), self.vname(p))
            vals[p] = a
            f.args.append(a)
        f.blocks = []
        if f.decl:
            return f
        bmap = {}
        b = L.LLVMGetFirstBasicBlock(raw)
        while b:
            B = Block()
            nm = L.LLVMGetBasicBlockName(b)
            B.name = nm.decode() if nm else ""
            B.idx, B.insts, B.succs, B.preds, B.is_header, B.loop = len(f.blocks), [], [], [], False, None
            bmap[b] = B
            f.blocks.append(B)
            b = L.LLVMGetNextBasicBlock(b)
        rawinsts = []
        nid = 0
        for b, B in bmap.items():
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Inst()
                I.op = OPC.get(L.LLVMGetInstructionOpcode(i), "?")
                I.ty = self.ty(L.LLVMTypeOf(i))
                I.name = self.vname(i)
                I.line = L.LLVMGetDebugLocLine(i)
                I.block, I.extra, I.ops, I.id, I.fn = B, None, [], nid, f
                nid += 1
                vals[i] = I
                rawinsts.append((i, I))
                B.insts.append(I)
                i = L.LLVMGetNextInstruction(i)

        def opnd(v):
            if v in vals: return vals[v]
            return self.const(v)
        for i, I in rawinsts:
            op = I.op
            if op == "phi":
                I.extra = [(opnd(L.LLVMGetIncomingValue(i, k)), bmap[L.LLVMGetIncomingBlock(i, k)])
                           for k in range(L.LLVMCountIncoming(i))]
                continue
            if op == "br":
                I.extra = [bmap[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
                if L.LLVMIsConditional(i): I.ops = [opnd(L.LLVMGetCondition(i))]
                I.block.succs = list(I.extra)
                continue
            if op == "switch":
                n = L.LLVMGetNumOperands(i)
                I.ops = [opnd(L.LLVMGetOperand(i, 0))]
                cases = []
                # operands: cond, default, (val, bb)*
                ns = L.LLVMGetNumSuccessors(i)
                default = bmap[L.LLVMGetSuccessor(i, 0)]
                for k in range(1, ns):
                    cases.append((self.const(L.LLVMGetOperand(i, 2 * k)), bmap[L.LLVMGetSuccessor(i, k)]))
                I.extra = (default, cases)
                I.block.succs = [default] + [c[1] for c in cases]
                continue
            if op == "call" or op == "invoke":
                n = L.LLVMGetNumArgOperands(i)
                I.ops = [opnd(L.LLVMGetOperand(i, k)) for k in range(n)]
                cv = L.LLVMGetCalledValue(i)
                I.extra = opnd(cv)
                continue
            n = L.LLVMGetNumOperands(i)
            I.ops = [opnd(L.LLVMGetOperand(i, k)) for k in range(n)]
            if op == "icmp": I.extra = ICMP[L.LLVMGetICmpPredicate(i)]
            elif op == "fcmp": I.extra = FCMP[L.LLVMGetFCmpPredicate(i)]
            elif op == "alloca": I.extra = self.ty(L.LLVMGetAllocatedType(i))
            elif op == "gep": I.extra = self.gep(i, I.ops)
            elif op in ("extractvalue", "insertvalue"):
                idx = L.LLVMGetIndices(i)
                I.extra = [idx[k] for k in range(L.LLVMGetNumIndices(i))]
            elif op == "atomicrmw":
                I.extra = RMW[L.LLVMGetAtomicRMWBinOp(i)]
                I.order = L.LLVMGetOrdering(i)
            elif op == "cmpxchg":
                I.order = L.LLVMGetCmpXchgSuccessOrdering(i)
                I.weak = bool(L.LLVMGetWeak(i))
            elif op in ("add", "sub", "mul", "shl"): I.extra = (L.LLVMGetNSW(i), L.LLVMGetNUW(i))
            elif op in ("load", "store"): I.extra = I.order = L.LLVMGetOrdering(i)
        for B in f.blocks:
            for s in B.succs:
                if B not in s.preds: s.preds.append(B)
        self._loops(f)
        return f

    def _loops(self, f):
        """natural loops via dominators; f.loops: header block -> set of blocks; block.is_header"""
        if not f.blocks: return
        n = len(f.blocks)
        entry = f.blocks[0]
        # reverse postorder
        order, seen = [], set()
        stack = [(entry, iter(entry.succs))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in b.preds:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x is not y:
                                while pos[x] > pos[y]: x = idom[x]
                                while pos[y] > pos[x]: y = idom[y]
                            new = x
                if idom.get(b) is not new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a is b: return True
                if b is entry: return False
                b = idom[b]
        for b in order:
            for s in b.succs:
                if dom(s, b):
                    body = f.loops.setdefault(s, {s})
                    s.is_header = True
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(x.preds)


# ---------------------------------------------------------------- compilation
def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def parse_layouts(text):
    """-fdump-record-layouts-complete output -> {class: [(offset, type, field)]} (top level fields only)"""
    out = {}
    cur = None
    for line in text.splitlines():
        if line.startswith("*** Dumping AST Record Layout"):
            cur = "?"
            continue
        if cur is None: continue
        m = re.match(r"^\s*([0-9:\-]+)? \|(\s+)(.*)$", line)
        if not m: continue
        off, ind, rest = m.groups()
        if cur == "?":
            name = re.sub(r"^(class|struct|union) ", "", rest.strip())
            name = re.sub(r" \(empty\)$", "", name)
            cur = name
            out[cur] = []
            continue
        if rest.startswith("["):
            if "sizeof" in rest:
                mm = re.search(r"sizeof=(\d+)", rest)
                out[cur].append((int(mm.group(1)), "", "<sizeof>"))
            continue
        if len(ind) == 3 and off is not None:
            rest = rest.strip()
            if rest.endswith("(base)") or "(primary base)" in rest or rest.startswith("(") or rest.endswith("(empty)") and "(base)" in rest:
                out[cur].append((int(off.split(":")[0]), rest, "<base>"))
                continue
            rest = re.sub(r" \(empty\)$", "", rest)
            t, _, fld = rest.rpartition(" ")
            if ":" in off: continue
            out[cur].append((int(off), t, fld))
    return out
