"""Symbolic executor / verification-condition generator over LLVM IR.

Every path through a function under contract is executed symbolically from a state constrained only by its
precondition; loops are either unrolled until the solver proves the back edge infeasible (complete unrolling)
or cut by an invariant; calls to functions under contract use the contract, calls to other functions defined
in the module are inlined, calls to anything else need a (trusted) contract or make the function out of reach."""
import z3, time, re, itertools, os, subprocess, tempfile
from .llvm import Const, Arg, Inst
from . import lia, gf2


class Unsupported(Exception):
    pass


BV = z3.BitVec
def bv(v, n=64): return z3.BitVecVal(v, n)


def is_c(x): return isinstance(x, int) or z3.is_bv_value(x)
def cval(x): return x if isinstance(x, int) else x.as_long()
def b64(x): return bv(x) if isinstance(x, int) else x
T, F = z3.BoolVal(True), z3.BoolVal(False)


def scval(x, n=64):
    v = cval(x)
    return v - (1 << n) if v >= (1 << (n - 1)) else v


def add64(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    a, b = b64(a), b64(b)
    if z3.is_bv_value(a) and z3.is_bv_value(b):
        return scval(z3.simplify(a + b))
    return z3.simplify(a + b)


class Ptr:
    __slots__ = ("r", "off", "idx")

    def __init__(self, r, off=0, idx=None):
        if not isinstance(off, int) and z3.is_bv_value(off): off = scval(off)
        self.r, self.off, self.idx = r, off, idx

    def __repr__(self):
        return f"Ptr({self.r},{self.off}{'' if self.idx is None else ',[' + str(self.idx) + ']'})"


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name): self.name = name
    def __repr__(self): return f"&{self.name}"


class Undef:
    def __repr__(self): return "undef"


UNDEF = Undef()


def is_null(p):
    return isinstance(p, Ptr) and p.r == 0 and isinstance(p.off, int) and p.off == 0


def bool_to_bv(b, n=1):
    if z3.is_true(b): return bv(1, n)
    if z3.is_false(b): return bv(0, n)
    return z3.If(b, bv(1, n), bv(0, n))


def to_bool(x):
    if z3.is_bool(x): return x
    return z3.simplify(x == bv(1, x.size()))


# ------------------------------------------------------------------ byte contents (closures over index terms)
class Content:
    """total function BV64 -> BV8, built by updates; sel() gives a quantifier-free term"""

    def sel(self, i):
        raise NotImplementedError


class CBase(Content):
    def __init__(self, name):
        self.name = name
        self.f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8))

    def sel(self, i): return self.f(b64(i))


class CFun(Content):
    def __init__(self, fn): self.fn = fn
    def sel(self, i): return self.fn(b64(i))


class CStore(Content):
    def __init__(self, prev, idx, val): self.prev, self.idx, self.val = prev, idx, val

    def sel(self, i):
        c = z3.simplify(b64(i) == b64(self.idx))
        if z3.is_true(c): return self.val
        if z3.is_false(c): return self.prev.sel(i)
        return z3.If(c, self.val, self.prev.sel(i))


class CCopy(Content):
    """prev with [dst, dst+n) := src[so .. so+n)"""

    def __init__(self, prev, dst, n, src, so): self.prev, self.dst, self.n, self.src, self.so = prev, b64(dst), b64(n), src, b64(so)

    def sel(self, i):
        i = b64(i)
        rel = z3.simplify(i - self.dst)
        c = z3.simplify(z3.ULT(rel, self.n))
        if z3.is_true(c): return self.src.sel(z3.simplify(rel + self.so))
        if z3.is_false(c): return self.prev.sel(i)
        return z3.If(c, self.src.sel(z3.simplify(rel + self.so)), self.prev.sel(i))


class CFill(Content):
    def __init__(self, prev, dst, n, val): self.prev, self.dst, self.n, self.val = prev, b64(dst), b64(n), val

    def sel(self, i):
        i = b64(i)
        c = z3.simplify(z3.ULT(i - self.dst, self.n))
        if z3.is_true(c): return self.val
        if z3.is_false(c): return self.prev.sel(i)
        return z3.If(c, self.val, self.prev.sel(i))


# ------------------------------------------------------------------ regions
class Reg:
    """kind: cells (concrete offsets), bytes (symbolic offsets, byte contents), elems (array of records)"""
    __slots__ = ("id", "name", "kind", "size", "alive", "cells", "content", "init", "stride", "fields", "count",
                 "const", "heap", "sub", "tag", "zero")

    def __init__(self, id, name, kind, size):
        self.id, self.name, self.kind, self.size = id, name, kind, size
        self.alive, self.cells, self.content, self.init = True, {}, None, None
        self.stride = self.fields = self.count = None
        self.const, self.heap, self.sub, self.tag, self.zero = False, False, None, None, False

    def copy(self):
        r = Reg.__new__(Reg)
        for k in Reg.__slots__: setattr(r, k, getattr(self, k))
        r.cells = dict(self.cells)
        if self.fields is not None: r.fields = dict(self.fields)
        return r


class Frame:
    __slots__ = ("fn", "block", "ip", "env", "prev", "ret_inst", "counts", "allocas", "depth")

    def __init__(self, fn, ret_inst=None):
        self.fn, self.block, self.ip, self.env, self.prev = fn, fn.blocks[0], 0, {}, None
        self.ret_inst, self.counts, self.allocas, self.depth = ret_inst, {}, [], 0

    def copy(self):
        f = Frame.__new__(Frame)
        for k in Frame.__slots__: setattr(f, k, getattr(self, k))
        f.env, f.counts, f.allocas = dict(self.env), dict(self.counts), list(self.allocas)
        return f


class State:
    def __init__(self):
        self.frames, self.pc, self.mem, self.trace, self.ghost, self.loopst = [], [], {}, [], {}, {}
        self.foralls = []
        self.branches = []

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.pc, s.mem, s.trace = list(self.pc), dict(self.mem), list(self.trace)
        s.ghost, s.loopst, s.foralls = dict(self.ghost), dict(self.loopst), list(self.foralls)
        s.branches = list(self.branches)
        return s

    def assume(self, *cs):
        for c in cs:
            if z3.is_true(c): continue
            self.pc.append(c)

    def reg(self, rid): return self.mem[rid]

    def wreg(self, rid):
        r = self.mem[rid].copy()
        self.mem[rid] = r
        return r


class Obl:
    __slots__ = ("name", "fn", "status", "time", "backend", "line", "cex", "detail", "kind", "script")

    def __init__(self, name, fn, line=0, kind=""):
        self.name, self.fn, self.line, self.kind = name, fn, line, kind
        self.status, self.time, self.backend, self.cex, self.detail, self.script = "?", 0.0, "", None, "", None

    def __getstate__(self): return {k: getattr(self, k) for k in Obl.__slots__}
    def __setstate__(self, d):
        for k, v in d.items(): setattr(self, k, v)


class PathEnd(Exception):
    pass


def conj_consts(*a): pass


class Exec:
    def __init__(self, module, timeout_ms=20000, max_unroll=70, max_paths=4000):
        self.m = module
        self.timeout = timeout_ms
        self.max_unroll, self.max_paths = max_unroll, max_paths
        self.ids = itertools.count(1)
        self.fresh_n = itertools.count()
        self.handlers = []        # (compiled regex, fn)
        self._hcache = {}
        self.obls = []
        self.loop_specs = []      # (regex on fn demangled, selector(block, fn) -> bool, spec)
        self.fnname = ""
        self.cexfn = None         # model -> dict
        self.small = []           # soft constraints for small counterexamples
        self.used = set()         # inlined functions
        self.contracts_used = set()
        self.externals_used = set()
        self.check_nsw = False
        self.table_hook = None
        self.use_gf2 = False
        self.solver_time = 0.0
        self.nchecks = 0
        self.gregs = {}
        self.malloc_hook = None
        self.paths = 0
        self.stop_on_fail = 6
        self.nfailed = 0
        self.deadline = None
        self.dump_dir = None
        self.rmw = None           # the read-modify-write instruction being executed
        self.cur = None           # the instruction being executed
        self.weak_fails = True    # a weak compare-exchange may fail although the values agree
        self.access_hook = None   # (ex, st, ptr, size, write) -> extra obligations
        self.fork_loads = {}
        self.lemma_hook = None
        self.tactic = None
        self.smtlog = None
        self.use_lia = True
        self.infer = False
        self.bv_first = 0         # ms: try plain bit-vector reasoning first

    # ------------------------------------------------------------ fresh values
    def fresh(self, name, bits=64):
        n = f"{name}!{next(self.fresh_n)}"
        return z3.Bool(n) if bits == 1 else z3.BitVec(n, bits)

    def fresh_ptr(self, name): return Ptr(0, self.fresh(name, 64))

    def fresh_of(self, ty, name):
        if ty.kind == "int": return self.fresh(name, ty.bits)
        if ty.kind == "ptr": return self.fresh_ptr(name)
        if ty.kind == "float": return z3.FP(f"{name}!{next(self.fresh_n)}", z3.Float32())
        if ty.kind == "double": return z3.FP(f"{name}!{next(self.fresh_n)}", z3.Float64())
        if ty.kind == "struct": return tuple(self.fresh_of(e, f"{name}.{i}") for i, e in enumerate(ty.elems))
        if ty.kind == "void": return None
        raise Unsupported(f"fresh value of type {ty}")

    # ------------------------------------------------------------ regions
    def new_reg(self, st, name, kind="cells", size=None):
        rid = next(self.ids)
        r = Reg(rid, name, kind, size)
        if kind == "bytes": r.content = CBase(f"{name}#{rid}")
        st.mem[rid] = r
        return r

    def global_reg(self, st, name):
        if name not in self.gregs:
            self.gregs[name] = next(self.ids)
        rid = self.gregs[name]
        if rid not in st.mem:
            ty, init, const = self.m.glob(name)
            r = Reg(rid, f"@{name}", "cells", ty.size)
            r.const = const
            r.tag = ("global", name)
            if init is not None and const: r.init = (ty, init)
            st.mem[rid] = r
        return rid

    # ------------------------------------------------------------ solving
    def _solver(self, timeout):
        s = z3.Solver() if self.tactic is None else z3.SolverFor(self.tactic)
        s.set("timeout", int(timeout))
        return s

    def instantiate(self, st, exprs):
        """hypotheses of the form 'for all i: body(i)' keyed by an uninterpreted function are instantiated at every
        argument that function is applied to in exprs (to a fixed point, 3 rounds)"""
        if not st.foralls: return []
        out, done = [], set()
        work = list(exprs)
        seen = set()
        for _ in range(4):
            apps = {}
            stack = list(work)
            while stack:
                e = stack.pop()
                k = e.get_id()
                if k in seen: continue
                seen.add(k)
                if z3.is_app(e):
                    d = e.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() >= 1:
                        apps.setdefault(d.name(), []).append(e)
                    stack.extend(e.children())
            new = []
            for fname, body in st.foralls:
                for e in apps.get(fname, []):
                    key = (id(body), tuple(a.get_id() for a in e.children()))
                    if key in done: continue
                    done.add(key)
                    h = body(*e.children())
                    if not z3.is_true(h): new.append(h)
            if not new: break
            out += new
            work = new
        return out

    def feasible(self, st, cond=None, timeout=4000):
        if cond is not None:
            if z3.is_true(cond): cond = None
            elif z3.is_false(cond): return False
        t = time.time()
        fs = list(st.pc) + ([cond] if cond is not None else [])
        if st.foralls: fs += self.instantiate(st, fs)
        r = None
        if self.use_lia:
            try: r = lia.solve(fs, timeout)[0]
            except lia.NotLinear: pass
        if r is None or r == z3.unknown:
            s = self._solver(timeout)
            s.add(*fs)
            r = s.check()
        self.solver_time += time.time() - t
        self.nchecks += 1
        return r != z3.unsat

    def valid(self, st, goal, timeout=4000):
        """quick validity (used for simplification decisions only)"""
        if z3.is_true(goal): return True
        if z3.is_false(goal): return not self.feasible(st)
        return not self.feasible(st, z3.Not(goal), timeout)

    def oblige(self, st, name, goal, kind="", line=0, extra_hyps=()):
        o = Obl(name, self.fnname, line, kind)
        goal = z3.simplify(goal) if z3.is_expr(goal) else (T if goal else F)
        if self.infer:            # invariant inference pass: nothing is claimed, nothing is recorded
            if z3.is_false(goal): raise PathEnd()
            st.assume(goal)
            return True
        self.obls.append(o)
        if z3.is_true(goal):
            o.status, o.backend = "proved", "simplifier"
            return True
        if interval(goal):
            o.status, o.backend = "proved", "interval arithmetic"
            return True
        if self.use_gf2 and gf2.proves(goal):
            o.status, o.backend = "proved", "gf2 linear normal form"
            return True
        t = time.time()
        if FAILS[0] and (FAILS[0] >= 6 or t - FAILS[1] > 45):
            self.obls.pop()
            raise Enough()
        hyps = list(st.pc) + list(extra_hyps)
        inst = self.instantiate(st, hyps + [goal])
        res, model, backend = prove(hyps + inst, goal, 4000 if FAILS[0] else self.timeout, self.tactic, self.use_lia, self.bv_first)
        o.time = time.time() - t
        self.solver_time += o.time
        o.backend = backend
        if os.environ.get("DV_TRACE") and o.time > float(os.environ["DV_TRACE"]): print(f"TRACE {o.time:.1f}s {res} {backend} line {line}: {name}", flush=True)
        if res == "proved":
            o.status = "proved"
            st.assume(goal)
            return True
        o.status = "failed" if res == "sat" else "unknown"
        o.detail = f"{res}; path: " + "; ".join(st.branches[-12:])
        if res == "sat":
            model = shrink(hyps + inst, goal, self.small, model, self.tactic)
            if self.cexfn:
                try:
                    o.cex = self.cexfn(st, model)
                except Exception as e:  # model extraction is best effort
                    o.detail += f" (no concrete model: {e!r})"
            md = {}
            try:
                for d in model.decls():
                    if d.arity() == 0: md[d.name()] = str(model[d])
            except Exception: pass
            o.detail += " | model: " + ", ".join(f"{k}={v}" for k, v in sorted(md.items())[:40])
        self.nfailed += 1
        if not FAILS[0]: FAILS[1] = time.time()
        FAILS[0] += 1
        st.assume(goal)
        return False

    # ------------------------------------------------------------ memory
    def check_access(self, st, p, size, write, line, what="access"):
        if not isinstance(p, Ptr): raise Unsupported(f"memory access through {p!r}")
        if p.r == 0:
            self.oblige(st, "no access through a null or unknown pointer", F, "memory", line)
            raise PathEnd()
        r = st.mem.get(p.r)
        if r is None: raise Unsupported("dangling region")
        if not r.alive:
            self.oblige(st, f"no use of freed storage ({r.name})", F, "memory", line)
            raise PathEnd()
        if write and r.const:
            self.oblige(st, f"no write to constant storage ({r.name})", F, "memory", line)
            raise PathEnd()
        if r.kind == "elems":
            if p.idx is None: raise Unsupported("elems pointer without index")
            g = z3.ULT(b64(p.idx), b64(r.count))
            ok = True
            if not (z3.is_true(z3.simplify(g))):
                ok = self.oblige(st, f"index within {r.name}", g, "memory", line)
            if not isinstance(p.off, int): raise Unsupported("symbolic offset in record")
            return r
        if r.size is None: return r
        if isinstance(p.off, int) and isinstance(r.size, int) and isinstance(size, int):
            if p.off < 0 or p.off + size > r.size:
                self.oblige(st, f"{what} within {r.name}", F, "memory", line)
                raise PathEnd()
            return r
        o, s, n = b64(p.off), b64(size), b64(r.size)
        g = z3.And(z3.ULE(s, n), z3.ULE(o, n - s))
        if isinstance(size, int) is False:
            g = z3.Or(s == 0, g) if False else g
        if not self.oblige(st, f"{what} within {r.name}", g, "memory", line):
            if not self.feasible(st): raise PathEnd()
        return r

    def resolve(self, st, p):
        """translate a pointer into an embedded array (sub-region) if the object declares one there"""
        if p.r == 0: return p
        r = st.mem.get(p.r)
        if r is not None and r.sub and isinstance(p.off, int):
            for (o, ln, rid, stride) in r.sub:
                if o <= p.off < o + ln:
                    d = p.off - o
                    sr = st.mem[rid]
                    if sr.kind == "elems": return Ptr(rid, d % stride, bv(d // stride))
                    return Ptr(rid, d)
        return p

    def load(self, st, p, ty, line=0, name=None):
        p = self.resolve(st, p)
        if ty.kind == "struct" or ty.kind == "array":
            n = len(ty.elems) if ty.kind == "struct" else ty.count
            return tuple(self.load(st, Ptr(p.r, add64(p.off, ty.offsets[i] if ty.kind == "struct" else i * ty.elem.size), p.idx),
                                   ty.elems[i] if ty.kind == "struct" else ty.elem, line) for i in range(n))
        size = ty.size
        r = self.check_access(st, p, size, False, line, "read")
        if self.access_hook:
            v = self.access_hook(self, st, p, ty, None, line)
            if v is not None: return v
        if r.kind == "elems":
            key = p.off
            if key not in r.fields: raise Unsupported(f"record field {key} of {r.name}")
            kind, fsz, sel = r.fields[key]
            if fsz != size:
                raise Unsupported(f"partial record field access {r.name}+{key} size {size}")
            return self.conv(sel(b64(p.idx)), ty, st)
        if r.kind == "bytes":
            bs = [r.content.sel(add64(p.off, k)) for k in range(size)]
            v = bs[0] if size == 1 else z3.Concat(*reversed(bs))
            return self.conv(v, ty, st)
        if not isinstance(p.off, int):
            if r.const and r.init is not None and r.init[0].kind == "array":
                return self.table(st, r, p, ty)
            return self.load_symidx(st, r, p, ty)
        return self.load_cell(st, p.r, p.off, size, ty)

    def load_symidx(self, st, r, p, ty):
        """symbolic offset into a fully concrete-celled region: case split over the aligned cells"""
        size = ty.size
        if r.size is None or not isinstance(r.size, int) or r.size // size > 300 or ty.kind != "int":
            raise Unsupported(f"symbolic offset into {r.name}")
        res = None
        # alignment must be provable
        if size > 1 and not self.valid(st, z3.URem(b64(p.off), bv(size)) == 0):
            raise Unsupported(f"unaligned symbolic offset into {r.name}")
        for k in range(r.size // size - 1, -1, -1):
            v = self.load_cell(st, p.r, k * size, size, ty)
            res = v if res is None else z3.If(b64(p.off) == k * size, v, res)
        return res

    def store_symidx(self, st, p, v, size):
        r = st.mem[p.r]
        if r.size is None or not isinstance(r.size, int) or r.size // size > 300 or isinstance(v, (Ptr, FnPtr, tuple)):
            raise Unsupported(f"symbolic store offset into {r.name}")
        if size > 1 and not self.valid(st, z3.URem(b64(p.off), bv(size)) == 0):
            raise Unsupported(f"unaligned symbolic store offset into {r.name}")

        class _T: pass
        t = _T(); t.kind = "int"; t.bits = size * 8; t.size = size
        for k in range(r.size // size):
            old = self.load_cell(st, p.r, k * size, size, t)
            self.store_cell(st, p.r, k * size, size, z3.If(b64(p.off) == k * size, v, old))

    def conv(self, v, ty, st=None):
        """raw value (BV) -> value of type ty"""
        if ty.kind == "int":
            if isinstance(v, Ptr): return self.ptr2int(v)
            if z3.is_bool(v): return v if ty.bits == 1 else bool_to_bv(v, ty.bits)
            if ty.bits == 1: return z3.simplify(z3.Extract(0, 0, v) == 1)
            if v.size() > ty.bits: return z3.Extract(ty.bits - 1, 0, v)
            return v
        if ty.kind == "ptr":
            if isinstance(v, (Ptr, FnPtr)): return v
            return Ptr(0, v)
        if ty.kind in ("float", "double"):
            if z3.is_fp(v): return v
            return z3.fpBVToFP(v, z3.Float32() if ty.kind == "float" else z3.Float64())
        raise Unsupported(f"conversion to {ty}")

    def raw(self, v, size):
        """value -> BV of size bytes"""
        if isinstance(v, _PIV): v = v.p
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        if isinstance(v, FnPtr): raise Unsupported("bytes of a function pointer")
        if v is UNDEF: return self.fresh("undef", size * 8)
        if z3.is_bool(v): return bool_to_bv(v, size * 8)
        if z3.is_fp(v): return z3.fpToIEEEBV(v)
        if v.size() < size * 8: return z3.ZeroExt(size * 8 - v.size(), v)
        return v

    def ptr2int(self, p):
        if isinstance(p, FnPtr): raise Unsupported("ptrtoint of function pointer")
        if p.r == 0: return b64(p.off)
        if p.idx is not None: raise Unsupported("ptrtoint of record pointer")
        base = z3.BitVec(f"addr#{p.r}", 64)
        return base + b64(p.off)

    def load_cell(self, st, rid, off, size, ty):
        r = st.mem[rid]
        c = r.cells.get(off)
        if c is not None and c[1] == size: return self.conv(c[0], ty, st)
        # overlapping cells?
        ov = [(o, v, n) for o, (v, n) in r.cells.items() if o < off + size and off < o + n]
        if not ov:
            v = self.init_cell(st, r, off, size, ty)
            r2 = st.wreg(rid)
            r2.cells[off] = (v, size)
            return self.conv(v, ty, st)
        # assemble byte-wise
        bs = []
        for k in range(size):
            a = off + k
            for (o, v, n) in ov:
                if o <= a < o + n:
                    rv = self.raw(v, n)
                    j = a - o
                    bs.append(z3.Extract(8 * j + 7, 8 * j, rv))
                    break
            else:
                class _B: kind, bits, size = "int", 8, 1
                v = self.init_cell(st, r, a, 1, _B)
                r2 = st.wreg(rid)
                r2.cells[a] = (v, 1)
                bs.append(v)
        v = z3.simplify(bs[0] if size == 1 else z3.Concat(*reversed(bs)))
        return self.conv(v, ty, st)

    def init_cell(self, st, r, off, size, ty):
        if r.init is not None:
            if callable(r.init): return r.init(self, st, off, size, ty)
            t, c = r.init
            return self.const_at(st, t, c, off, size, ty)
        if r.zero:
            if ty.kind == "ptr": return NULL
            if ty.kind in ("float", "double"): return z3.FPVal(0, z3.Float32() if ty.kind == "float" else z3.Float64())
            return bv(0, size * 8)
        if ty.kind == "ptr": return self.fresh_ptr(f"{r.name}+{off}")
        if ty.kind == "float": return z3.FP(f"{r.name}+{off}!{next(self.fresh_n)}", z3.Float32())
        if ty.kind == "double": return z3.FP(f"{r.name}+{off}!{next(self.fresh_n)}", z3.Float64())
        return self.fresh(f"{r.name}+{off}", size * 8)

    def const_at(self, st, t, c, off, size, ty):
        """value of a constant initialiser at a byte offset"""
        while True:
            if c.kind in ("zero", "undef"):
                if ty.kind == "ptr": return NULL
                if ty.kind in ("float", "double"): return z3.FPVal(0, z3.Float32() if ty.kind == "float" else z3.Float64())
                return bv(0, size * 8)
            if c.kind == "bytes":
                b = c.val[off:off + size]
                b = b + b"\0" * (size - len(b))
                return bv(int.from_bytes(b, "little"), size * 8)
            if c.kind == "agg":
                if t.kind == "struct":
                    for i in range(len(t.elems) - 1, -1, -1):
                        if off >= t.offsets[i]:
                            break
                    off -= t.offsets[i]
                    t, c = t.elems[i], c.val[i]
                else:
                    i = off // t.elem.size
                    if size > t.elem.size:
                        parts = [self.const_at(st, t.elem, c.val[i + k], 0, t.elem.size, _IntTy(t.elem.size * 8)) for k in range(size // t.elem.size)]
                        return z3.simplify(z3.Concat(*reversed(parts)))
                    off -= i * t.elem.size
                    t, c = t.elem, c.val[i]
                continue
            v = self.constval(st, c)
            if off == 0: return v
            raw = self.raw(v, t.size)
            return z3.simplify(z3.Extract(8 * (off + size) - 1, 8 * off, raw))

    def table(self, st, r, p, ty):
        name = r.tag[1]
        t, c = r.init
        es = t.elem.size
        if es != ty.size: raise Unsupported(f"table access width {name}")
        idx = z3.simplify(z3.UDiv(b64(p.off), bv(es))) if es > 1 else b64(p.off)
        if p.tag_idx if hasattr(p, "tag_idx") else False: pass
        if self.table_hook:
            v = self.table_hook(self, st, name, idx, ty, r)
            if v is not None: return v
        key = ("tbl", name)
        if key not in self.fork_loads:
            arr = z3.K(z3.BitVecSort(64), bv(0, es * 8))
            for i in range(t.count):
                arr = z3.Store(arr, bv(i), self.const_at(st, t, c, i * es, es, ty))
            self.fork_loads[key] = arr
        return z3.Select(self.fork_loads[key], idx)

    def store(self, st, p, v, size, line=0):
        p = self.resolve(st, p)
        if isinstance(v, tuple): raise Unsupported("aggregate store without type")
        r = self.check_access(st, p, size, True, line, "write")
        if self.access_hook:
            if self.access_hook(self, st, p, None, (v, size), line): return
        if r.kind == "elems":
            key = p.off
            if key not in r.fields: raise Unsupported(f"record field {key} of {r.name}")
            kind, fsz, sel = r.fields[key]
            if fsz != size: raise Unsupported(f"partial record field store {r.name}+{key} size {size}")
            r = st.wreg(p.r)
            idx = b64(p.idx)
            vv = v if kind == "ptr" else self.raw(v, size)

            def nsel(i, idx=idx, vv=vv, sel=sel):
                c = z3.simplify(i == idx)
                if z3.is_true(c): return vv
                if z3.is_false(c): return sel(i)
                old = sel(i)
                if isinstance(vv, Ptr) or isinstance(old, Ptr):
                    raise Unsupported("symbolic pointer array read")
                return z3.If(c, vv, old)
            r.fields[key] = (kind, fsz, nsel)
            return
        if r.kind == "bytes":
            r = st.wreg(p.r)
            raw = self.raw(v, size)
            for k in range(size):
                r.content = CStore(r.content, add64(p.off, k), z3.simplify(z3.Extract(8 * k + 7, 8 * k, raw)) if size > 1 else raw)
            return
        if not isinstance(p.off, int):
            return self.store_symidx(st, p, v, size)
        self.store_cell(st, p.r, p.off, size, v)

    def store_cell(self, st, rid, off, size, v):
        r = st.wreg(rid)
        c = r.cells.get(off)
        if c is None or c[1] != size:
            for o, (ov, n) in list(r.cells.items()):
                if o < off + size and off < o + n:
                    # split the overlapped cell into bytes outside the new range
                    del r.cells[o]
                    keep = [k for k in range(n) if not (off <= o + k < off + size)]
                    if keep:
                        rv = self.raw(ov, n)
                        for k in keep:
                            r.cells[o + k] = (z3.simplify(z3.Extract(8 * k + 7, 8 * k, rv)), 1)
        r.cells[off] = (v, size)

    def memcpy(self, st, dst, src, n, line=0, move=False):
        dst, src = self.resolve(st, dst), self.resolve(st, src)
        if is_c(n): n = cval(n)
        if isinstance(n, int) and n == 0: return
        if dst.r == 0 or src.r == 0:
            # zero-length copies may use any pointer
            if not isinstance(n, int) and self.valid(st, n == 0): return
        rd = self.check_access(st, dst, n, True, line, "copy destination")
        rs = self.check_access(st, src, n, False, line, "copy source")
        if not move and dst.r == src.r and rd.kind != "elems":
            a, b, k = b64(dst.off), b64(src.off), b64(n)
            self.oblige(st, "copied ranges do not overlap", z3.Or(k == 0, z3.ULE(a + k, b), z3.ULE(b + k, a)), "memory", line)
        if rd.kind == "bytes" and rs.kind == "bytes":
            r = st.wreg(dst.r)
            r.content = CCopy(rd.content, dst.off, n, rs.content, src.off)
            return
        if not isinstance(n, int):
            n2 = self.concretize(st, n)
            if n2 is None:
                if rd.kind == "bytes" and rs.kind == "cells" and isinstance(src.off, int):
                    # copy a symbolic-length prefix of a cell region
                    base = self.cells_content(st, src.r)
                    r = st.wreg(dst.r)
                    r.content = CCopy(rd.content, dst.off, n, base, src.off)
                    return
                raise Unsupported("symbolic-length copy between object storage")
            n = n2
        if rd.kind == "elems" or rs.kind == "elems":
            return self.memcpy_elems(st, dst, src, n, rd, rs)
        if rd.kind == "cells" and rs.kind == "cells":
            if not (isinstance(dst.off, int) and isinstance(src.off, int)): raise Unsupported("symbolic copy")
            # copy whole cells where possible
            k = 0
            items = []
            while k < n:
                c = st.mem[src.r].cells.get(src.off + k)
                if c is not None and k + c[1] <= n:
                    items.append((k, c[0], c[1]))
                    k += c[1]
                else:
                    w = 1
                    # uninitialised source: prefer 8-byte units so that pointers survive
                    if (src.off + k) % 8 == 0 and k + 8 <= n and not any(
                            o < src.off + k + 8 and src.off + k < o + cn for o, (cv, cn) in st.mem[src.r].cells.items()):
                        w = 8
                        ini = st.mem[src.r].init
                        if callable(ini) and getattr(ini, "bytewise", False): w = 1
                    v = self.load_cell(st, src.r, src.off + k, w, _IntTy(w * 8))
                    items.append((k, v, w))
                    k += w
            for k, v, w in items:
                self.store_cell(st, dst.r, dst.off + k, w, v)
            return
        if rd.kind == "cells":
            for k in range(n):
                self.store_cell(st, dst.r, dst.off + k, 1, rs.content.sel(add64(src.off, k)))
            return
        r = st.wreg(dst.r)
        vals = [self.load_cell(st, src.r, src.off + k, 1, _IntTy(8)) for k in range(n)]
        for k in range(n):
            r.content = CStore(r.content, add64(dst.off, k), vals[k])

    def memcpy_elems(self, st, dst, src, n, rd, rs):
        stride = rd.stride if rd.kind == "elems" else rs.stride
        if n != stride or dst.off != 0 and rd.kind == "elems" or src.off != 0 and rs.kind == "elems":
            raise Unsupported("partial record copy")
        flds = (rd if rd.kind == "elems" else rs).fields
        for off, (kind, fsz, sel) in flds.items():
            t = _IntTy(fsz * 8) if kind != "ptr" else _PtrTy()
            v = self.load(st, Ptr(src.r, add64(src.off, off), src.idx), t)
            self.store(st, Ptr(dst.r, add64(dst.off, off), dst.idx), v, fsz)

    def cells_content(self, st, rid):
        r = st.mem[rid]
        if not isinstance(r.size, int) or r.size > 4096: raise Unsupported("large cell copy")
        vals = [self.load_cell(st, rid, k, 1, _IntTy(8)) for k in range(r.size)]

        def f(i):
            e = vals[-1]
            for k in range(len(vals) - 1): e = z3.If(i == k, vals[k], e)
            return e
        return CFun(f)

    def concretize(self, st, n):
        if is_c(n): return cval(n)
        s = self._solver(4000)
        s.add(*st.pc)
        if s.check() != z3.sat: return None
        v = s.model().eval(n, model_completion=True).as_long()
        return v if self.valid(st, n == v) else None

    def memset(self, st, dst, val, n, line=0):
        dst = self.resolve(st, dst)
        if is_c(n): n = cval(n)
        if isinstance(n, int) and n == 0: return
        rd = self.check_access(st, dst, n, True, line, "fill")
        if rd.kind == "bytes":
            r = st.wreg(dst.r)
            r.content = CFill(rd.content, dst.off, n, val)
            return
        if not isinstance(n, int):
            n2 = self.concretize(st, n)
            if n2 is None: raise Unsupported("symbolic fill of object")
            n = n2
        if rd.kind == "elems": raise Unsupported("fill of records")
        if not isinstance(dst.off, int): raise Unsupported("symbolic fill offset")
        if z3.is_bv_value(val) and val.as_long() == 0:
            # zero fill in natural units (pointer fields become null)
            k = 0
            while k < n:
                w = 8 if (dst.off + k) % 8 == 0 and k + 8 <= n else 4 if (dst.off + k) % 4 == 0 and k + 4 <= n else 1
                self.store_cell(st, dst.r, dst.off + k, w, bv(0, 8 * w))
                k += w
            return
        for k in range(n): self.store_cell(st, dst.r, dst.off + k, 1, val)

    # ------------------------------------------------------------ operand evaluation
    def constval(self, st, c):
        k = c.kind
        if k == "int": return (T if c.val else F) if c.ty.bits == 1 else bv(c.val, c.ty.bits)
        if k == "null": return NULL
        if k == "undef":
            if c.ty.kind == "ptr": return NULL
            if c.ty.kind == "struct": return tuple(UNDEF for _ in c.ty.elems)
            return UNDEF
        if k == "func": return FnPtr(c.val)
        if k == "global": return Ptr(self.global_reg(st, c.val), 0)
        if k == "fp": return z3.FPVal(c.val, z3.Float32() if c.ty.kind == "float" else z3.Float64())
        if k == "zero":
            if c.ty.kind == "struct": return tuple(self.zero(e) for e in c.ty.elems)
            return self.zero(c.ty)
        if k == "agg": return tuple(self.constval(st, e) for e in c.val)
        if k == "expr":
            if c.val == "gep":
                p = self.constval(st, c.ops[0])
                return self.do_gep(st, p, [(x[0], x[1]) if x[0] == "c" else (x[0], self.constval(st, x[1]), x[2]) for x in c.extra])
            if c.val in ("bitcast", "addrspacecast"): return self.constval(st, c.ops[0])
            if c.val == "inttoptr": return Ptr(0, self.constval(st, c.ops[0]))
            if c.val == "ptrtoint":
                v = self.constval(st, c.ops[0])
                return v if isinstance(v, FnPtr) else self.ptr2int(v)
        raise Unsupported(f"constant {c}")

    def zero(self, ty):
        if ty.kind == "int": return F if ty.bits == 1 else bv(0, ty.bits)
        if ty.kind == "ptr": return NULL
        if ty.kind in ("float", "double"): return z3.FPVal(0, z3.Float32() if ty.kind == "float" else z3.Float64())
        if ty.kind == "struct": return tuple(self.zero(e) for e in ty.elems)
        raise Unsupported(f"zero {ty}")

    def val(self, st, o):
        if isinstance(o, Const): return self.constval(st, o)
        return st.frames[-1].env[o]

    def do_gep(self, st, p, parts):
        if isinstance(p, FnPtr): raise Unsupported("gep on function pointer")
        if not isinstance(p, Ptr): raise Unsupported(f"gep on {p!r}")
        r = st.mem.get(p.r) if p.r else None
        off, idx = p.off, p.idx
        for x in parts:
            if x[0] == "c":
                d, stride = x[1], None
                if r is not None and r.kind == "elems":
                    off = off + d
                    k, off = divmod(off, r.stride)
                    if k: idx = z3.simplify(b64(idx) + k)
                else:
                    off = add64(off, d)
            else:
                v, stride = x[1], x[2]
                if z3.is_bool(v): v = bool_to_bv(v, 64)
                if v.size() < 64: v = z3.SignExt(64 - v.size(), v)
                if z3.is_bv_value(z3.simplify(v)):
                    return self.do_gep(st, Ptr(p.r, off, idx), [("c", scval(z3.simplify(v)) * stride)] + list(parts[parts.index(x) + 1:]))
                if r is not None and r.sub and isinstance(off, int):
                    q = self.resolve(st, Ptr(p.r, off))
                    if q.r != p.r:
                        return self.do_gep(st, q, parts[parts.index(x):])
                if r is not None and r.kind == "elems":
                    if stride % r.stride: raise Unsupported(f"stride {stride} over {r.name}")
                    if off != 0 and stride // r.stride == 1:
                        pass
                    m = stride // r.stride
                    idx = z3.simplify(b64(idx) + (v if m == 1 else v * m))
                else:
                    off = add64(off, v if stride == 1 else v * bv(stride))
        q = Ptr(p.r, off, idx)
        return self.resolve(st, q) if r is not None and r.sub else q

    # ------------------------------------------------------------ running
    def on(self, pat, fn=None):
        """register a contract/handler for callees whose demangled name matches"""
        if fn is None:
            def deco(f):
                self.handlers.append((re.compile(pat), f))
                self._hcache.clear()
                return f
            return deco
        self.handlers.append((re.compile(pat), fn))
        self._hcache.clear()

    def handler(self, name):
        if name not in self._hcache:
            h = None
            for rx, f in reversed(self.handlers):
                if rx.match(name):
                    h = f
                    break
            self._hcache[name] = h
        return self._hcache[name]

    def run(self, st, fname, args, on_return):
        """execute function (mangled or demangled name) from st; on_return(state, value) at each return"""
        f = self.m.fn(self.m.bydem.get(fname, fname))
        if f.decl: raise Unsupported(f"{fname} has no body")
        fr = Frame(f)
        if len(args) != len(f.args): raise Unsupported(f"{fname}: {len(f.args)} parameters, spec gives {len(args)}")
        for a, v in zip(f.args, args): fr.env[a] = v
        base = len(st.frames)
        st.frames.append(fr)
        work = [st]
        while work:
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
            s = work.pop()
            try:
                self.run_path(s, work, base, on_return)
            except PathEnd:
                pass
            if self.nfailed >= self.stop_on_fail:
                return

    def push(self, work, st):
        work.append(st)

    def run_path(self, st, work, base, on_return):
        while True:
            fr = st.frames[-1]
            I = fr.block.insts[fr.ip]
            r = self.step(st, fr, I, work)
            if r == "next":
                fr.ip += 1
            elif r == "jump" or r == "called":
                pass
            elif r == "end":
                return
            elif isinstance(r, tuple) and r[0] == "ret":
                for rid in fr.allocas:
                    if rid in st.mem:
                        st.wreg(rid).alive = False
                st.frames.pop()
                if len(st.frames) == base:
                    self.paths += 1
                    if self.paths > self.max_paths: raise Unsupported("too many paths")
                    on_return(st, r[1])
                    return
                caller = st.frames[-1]
                if fr.ret_inst is not None and fr.ret_inst.ty.kind != "void":
                    caller.env[fr.ret_inst] = r[1]
                caller.ip += 1
            else:
                raise RuntimeError(r)

    def fork(self, st, work, conds_actions):
        """conds_actions: list of (cond, action(state)); continues st itself on one of them"""
        feas = []
        for c, a in conds_actions:
            if z3.is_false(c): continue
            if z3.is_true(c) or self.feasible(st, c): feas.append((c, a))
        if not feas: raise PathEnd()
        for c, a in feas[1:]:
            s2 = st.clone()
            s2.assume(c)
            a(s2)
            self.push(work, s2)
        c, a = feas[0]
        st.assume(c)
        a(st)

    def jump(self, st, target):
        fr = st.frames[-1]
        src = fr.block
        fr.prev = src
        fr.block = target
        fr.ip = 0
        # phis
        phis = []
        for I in target.insts:
            if I.op != "phi": break
            for v, b in I.extra:
                if b is src:
                    phis.append((I, self.val(st, v)))
                    break
            fr.ip += 1
        if target.is_header:
            spec = self.find_loop_spec(fr.fn, target)
            back = src in fr.fn.loops[target]
            if spec is not None:
                key = (len(st.frames), target)
                vals = dict(phis)
                if back and key in st.loopst:
                    spec.back(self, st, target, vals, st.loopst[key])
                    raise PathEnd()
                st.loopst[key] = spec.enter(self, st, target, vals)
                for I, v in vals.items(): fr.env[I] = v
                return
            n = fr.counts.get(target, 0) + 1 if back else 0
            fr.counts[target] = n
            if n > self.max_unroll:
                self.oblige(st, f"loop at line {target.insts[-1].line} terminates within {self.max_unroll} iterations (no invariant given)", F, "termination", target.insts[-1].line)
                raise PathEnd()
        else:
            # leaving a loop resets its counters lazily
            pass
        for I, v in phis: fr.env[I] = v

    def find_loop_spec(self, fn, header):
        for rx, sel, spec in self.loop_specs:
            if rx.match(fn.dem) and (sel is None or sel(fn, header)): return spec
        return None

    def setv(self, fr, I, v):
        fr.env[I] = v

    def step(self, st, fr, I, work):
        op = I.op
        self.cur, self.rmw = I, None
        env = fr.env
        if op == "call" or op == "invoke":
            return self.do_call(st, fr, I, work)
        if op == "br":
            if not I.ops:
                self.jump(st, I.extra[0])
                return "jump"
            c = to_bool(self.boolval(self.val(st, I.ops[0])))
            c = z3.simplify(c)
            # LLVM prints operands (cond, false, true); successors are (true, false)
            t, f = I.extra
            if z3.is_true(c): self.jump(st, t); return "jump"
            if z3.is_false(c): self.jump(st, f); return "jump"
            ft, ff = self.feasible(st, c), None
            ff = self.feasible(st, z3.Not(c)) if ft else True
            if ft and ff:
                s2 = st.clone()
                s2.assume(z3.Not(c))
                s2.branches.append(f"{I.line}:F")
                st.assume(c)
                st.branches.append(f"{I.line}:T")
                ok = True
                try:
                    self.jump(s2, f)
                    self.push(work, s2)
                except PathEnd:
                    pass
                self.jump(st, t)
                return "jump"
            if ft:
                self.jump(st, t)
            else:
                st.assume(z3.Not(c)) if False else None
                self.jump(st, f)
            return "jump"
        if op == "ret":
            return ("ret", self.val(st, I.ops[0]) if I.ops else None)
        if op == "load":
            p = self.val(st, I.ops[0])
            env[I] = self.load(st, p, I.ty, I.line)
            return "next"
        if op == "store":
            v, p = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            o = I.ops[0]
            self.store_typed(st, p, v, o.ty, I.line)
            return "next"
        if op == "gep":
            p = self.val(st, I.ops[0])
            env[I] = self.do_gep(st, p, [(x[0], x[1]) if x[0] == "c" else (x[0], self.val(st, x[1]), x[2]) for x in I.extra])
            return "next"
        if op == "alloca":
            t = I.extra
            cnt = self.val(st, I.ops[0]) if I.ops else bv(1, 32)
            if not z3.is_bv_value(cnt): raise Unsupported("variable length alloca")
            size = t.size * cnt.as_long()
            big = t.kind == "array" and t.elem.kind == "int" and t.elem.bits == 8 and t.size > 64
            r = self.new_reg(st, I.name or f"local{I.id}", "bytes" if big else "cells", size)
            fr.allocas.append(r.id)
            env[I] = Ptr(r.id, 0)
            return "next"
        if op == "icmp":
            env[I] = self.icmp(st, I.extra, self.val(st, I.ops[0]), self.val(st, I.ops[1]))
            return "next"
        if op == "select":
            c = z3.simplify(self.boolval(self.val(st, I.ops[0])))
            a, b = self.val(st, I.ops[1]), self.val(st, I.ops[2])
            if z3.is_true(c): env[I] = a
            elif z3.is_false(c): env[I] = b
            elif a is b: env[I] = a
            elif isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.idx is None and b.idx is None and (a.r == 0 or st.mem[a.r].kind == "bytes"):
                    env[I] = Ptr(a.r, z3.If(c, b64(a.off), b64(b.off)))
                else:
                    def sa(s): s.frames[-1].env[I] = a; s.frames[-1].ip += 1
                    def sb(s): s.frames[-1].env[I] = b; s.frames[-1].ip += 1
                    self.fork(st, work, [(c, sa), (z3.Not(c), sb)])
                    return "jump"
            else:
                if a is UNDEF: env[I] = b
                elif b is UNDEF: env[I] = a
                else: env[I] = z3.If(c, a, b)
            return "next"
        if op in ARITH:
            env[I] = self.arith(st, op, self.val(st, I.ops[0]), self.val(st, I.ops[1]), I)
            return "next"
        if op in ("zext", "sext", "trunc"):
            v = self.val(st, I.ops[0])
            if v is UNDEF: env[I] = UNDEF; return "next"
            n = I.ty.bits
            if isinstance(v, (Ptr,)): v = self.ptr2int(v)
            if isinstance(v, _PIV): v = self.ptr2int(v.p)
            if z3.is_bool(v):
                if op == "sext": env[I] = z3.If(v, bv(-1, n), bv(0, n))
                else: env[I] = bool_to_bv(v, n)
            elif op == "zext": env[I] = fold(z3.ZeroExt(n - v.size(), v))
            elif op == "sext": env[I] = fold(z3.SignExt(n - v.size(), v))
            else:
                x = fold(z3.Extract(n - 1, 0, v))
                env[I] = z3.simplify(x == 1) if n == 1 else x
            return "next"
        if op == "switch":
            v = self.val(st, I.ops[0])
            default, cases = I.extra
            acts, rest = [], []
            for c, b in cases:
                cond = z3.simplify(v == self.constval(st, c))
                rest.append(z3.Not(cond))
                acts.append((cond, b))
            dcond = z3.simplify(z3.And(*rest)) if rest else T
            acts.append((dcond, default))
            if z3.is_bv_value(z3.simplify(v)):
                for c, b in acts:
                    if z3.is_true(z3.simplify(c)): self.jump(st, b); return "jump"
            feas = [(c, b) for c, b in acts if not z3.is_false(c) and self.feasible(st, c)]
            if not feas: raise PathEnd()
            for c, b in feas[1:]:
                s2 = st.clone(); s2.assume(c); s2.branches.append(f"{I.line}:case")
                try:
                    self.jump(s2, b); self.push(work, s2)
                except PathEnd: pass
            st.assume(feas[0][0])
            self.jump(st, feas[0][1])
            return "jump"
        if op == "ptrtoint":
            v = self.val(st, I.ops[0])
            env[I] = v if isinstance(v, FnPtr) else _PI(self, v, I.ty.bits)
            return "next"
        if op == "inttoptr":
            v = self.val(st, I.ops[0])
            env[I] = self.int2ptr(st, v)
            return "next"
        if op in ("bitcast", "addrspacecast", "freeze"):
            v = self.val(st, I.ops[0])
            if op == "bitcast" and I.ty.kind != I.ops[0].ty.kind: v = self.conv(self.raw(v, I.ty.size), I.ty)
            env[I] = v
            return "next"
        if op == "extractvalue":
            v = self.val(st, I.ops[0])
            for k in I.extra: v = v[k]
            env[I] = v
            return "next"
        if op == "insertvalue":
            a, b = self.val(st, I.ops[0]), self.val(st, I.ops[1])

            def ins(a, path):
                if not path: return b
                l = list(a)
                l[path[0]] = ins(l[path[0]], path[1:])
                return tuple(l)
            env[I] = ins(a, I.extra)
            return "next"
        if op == "unreachable":
            raise PathEnd()
        if op == "fence":
            return "next"
        if op == "cmpxchg":
            return self.do_cmpxchg(st, fr, I, work)
        if op == "atomicrmw":
            p, v = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            self.atomic_hook_pre(st, p, I)
            self.rmw = I
            old = self.load(st, p, I.ty, I.line)
            k = I.extra
            if k == "xchg": new = v
            elif k == "add": new = old + v
            elif k == "sub": new = old - v
            elif k == "and": new = old & v
            elif k == "or": new = old | v
            elif k == "xor": new = old ^ v
            else: raise Unsupported(f"atomicrmw {k}")
            self.store(st, p, fold(new) if z3.is_expr(new) else new, I.ty.size, I.line)
            self.rmw = None
            env[I] = old
            return "next"
        if op in FOPS or op in ("fcmp", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext", "fneg"):
            env[I] = self.fop(st, I)
            return "next"
        raise Unsupported(f"instruction {op}")

    def atomic_hook_pre(self, st, p, I): pass

    def do_cmpxchg(self, st, fr, I, work):
        p, exp, new = (self.val(st, o) for o in I.ops)
        self.atomic_hook_pre(st, p, I)
        ty = I.ty.elems[0]
        self.rmw = I
        old = self.load(st, p, ty, I.line)
        self.rmw = None
        if ty.kind == "ptr": raise Unsupported("pointer cmpxchg")
        if ty.kind in ("float", "double"): raise Unsupported("floating point cmpxchg")
        c = z3.simplify(old == exp)
        spurious = I.weak and self.weak_fails

        def yes(s):
            self.rmw = I
            try: self.store(s, p, new, ty.size, I.line)
            finally: self.rmw = None
            s.frames[-1].env[I] = (old, T)
            s.frames[-1].ip += 1

        def no(s):
            s.frames[-1].env[I] = (old, F)
            s.frames[-1].ip += 1
        self.fork(st, work, [(c, yes), (T if spurious else z3.Not(c), no)])
        return "jump"

    def store_typed(self, st, p, v, ty, line):
        if ty.kind == "struct":
            for i, e in enumerate(ty.elems):
                self.store_typed(st, Ptr(p.r, add64(p.off, ty.offsets[i]), p.idx), v[i] if isinstance(v, tuple) else UNDEF, e, line)
            return
        if ty.kind == "array":
            for i in range(ty.count):
                self.store_typed(st, Ptr(p.r, add64(p.off, i * ty.elem.size), p.idx), v[i] if isinstance(v, tuple) else UNDEF, ty.elem, line)
            return
        if v is UNDEF: v = self.fresh_of(ty, "undef")
        if ty.kind == "int" and ty.bits == 1: v = bool_to_bv(v, 8) if z3.is_bool(v) else v
        self.store(st, p, v, ty.size, line)

    def int2ptr(self, st, v):
        if isinstance(v, FnPtr): return v
        if isinstance(v, (Ptr,)): return v
        if isinstance(v, _PIV): return v.p
        # addr#r + off -> Ptr(r, off)
        v = z3.simplify(v)
        for rid in st.mem:
            nm = f"addr#{rid}"
            d = z3.simplify(v - z3.BitVec(nm, 64))
            if z3.is_bv_value(d) and d.as_long() < 1 << 40: return Ptr(rid, d.as_long())
            if nm in str(v) and "addr#" not in str(d).replace(nm, "", 0): 
                if nm not in str(d): return Ptr(rid, d)
        return Ptr(0, v)

    def boolval(self, v):
        if v is UNDEF: return self.fresh("undef", 1)
        if z3.is_bool(v): return v
        return v == 1

    def ptr_eq(self, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr): return T if a.name == b.name else F
            o = b if isinstance(a, FnPtr) else a
            if is_null(o): return F
            raise Unsupported("function pointer comparison")
        if a.r == b.r:
            e = z3.simplify(b64(a.off) == b64(b.off))
            if a.idx is not None or b.idx is not None:
                e = z3.simplify(z3.And(e, b64(a.idx) == b64(b.idx)))
            return e
        if a.r == 0 or b.r == 0:
            return F    # an object's address differs from null and from every opaque (non-object) address
        return F

    def icmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF: return self.fresh("undef", 1)
        if isinstance(a, _PIV): a = a.p
        if isinstance(b, _PIV): b = b.p
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if not isinstance(a, (Ptr, FnPtr)): a = Ptr(0, a)
            if not isinstance(b, (Ptr, FnPtr)): b = Ptr(0, b)
            if pred == "eq": return self.ptr_eq(a, b)
            if pred == "ne": return z3.simplify(z3.Not(self.ptr_eq(a, b)))
            if a.r != b.r: raise Unsupported("ordering of pointers into different objects")
            if a.idx is not None:
                if z3.is_true(z3.simplify(b64(a.off) == b64(b.off))): a, b = b64(a.idx), b64(b.idx)
                else: raise Unsupported("record pointer ordering")
            else: a, b = b64(a.off), b64(b.off)
        if z3.is_bool(a): a = bool_to_bv(a)
        if z3.is_bool(b): b = bool_to_bv(b)
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b),
             "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "sgt": lambda: a > b, "sge": lambda: a >= b,
             "slt": lambda: a < b, "sle": lambda: a <= b}[pred]()
        return z3.simplify(r)

    def arith(self, st, op, a, b, I):
        if a is UNDEF or b is UNDEF: return self.fresh("undef", I.ty.bits)
        if isinstance(a, _PIV) or isinstance(b, _PIV):
            if op == "sub" and isinstance(a, _PIV) and isinstance(b, _PIV) and a.p.r == b.p.r:
                if a.p.idx is not None:
                    st_ = st.mem[a.p.r].stride
                    return fold((b64(a.p.idx) - b64(b.p.idx)) * st_ + (b64(a.p.off) - b64(b.p.off)))
                return fold(b64(a.p.off) - b64(b.p.off))
            if isinstance(a, _PIV): a = self.ptr2int(a.p)
            if isinstance(b, _PIV): b = self.ptr2int(b.p)
        if z3.is_bool(a) or z3.is_bool(b):
            a, b = to_bool(a), to_bool(b)
            if op == "and": return z3.simplify(z3.And(a, b))
            if op == "or": return z3.simplify(z3.Or(a, b))
            if op in ("xor", "add", "sub"): return z3.simplify(z3.Xor(a, b))
            raise Unsupported(f"i1 {op}")
        n = a.size()
        if self.check_nsw and op in ("add", "sub", "mul") and I.extra and I.extra[0]:
            if op == "add": g = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == "sub": g = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            else: g = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            self.oblige(st, f"no signed overflow in {op}", g, "overflow", I.line)
        if op == "add": return fold(a + b)
        if op == "sub": return fold(a - b)
        if op == "mul": return fold(a * b)
        if op == "and": return fold(a & b)
        if op == "or": return fold(a | b)
        if op == "xor": return fold(a ^ b)
        if op == "shl": return fold(a << b)
        if op == "lshr": return fold(z3.LShR(a, b))
        if op == "ashr": return fold(a >> b)
        if op in ("udiv", "sdiv", "urem", "srem"):
            if not z3.is_bv_value(b):
                self.oblige(st, f"divisor of {op} is not zero", b != 0, "arith", I.line)
            elif b.as_long() == 0:
                self.oblige(st, f"divisor of {op} is not zero", F, "arith", I.line)
            if op in ("urem", "udiv") and not (z3.is_bv_value(a) and z3.is_bv_value(b)):
                if not (z3.is_bv_value(b) and (b.as_long() & (b.as_long() - 1)) == 0):
                    if self.valid(st, z3.ULT(a, b), 2000):
                        return a if op == "urem" else bv(0, n)
                    if self.valid(st, z3.Or(z3.ULT(a, b), z3.ULT(a - b, b)), 2000):
                        return z3.If(z3.ULT(a, b), a, a - b) if op == "urem" else z3.If(z3.ULT(a, b), bv(0, n), bv(1, n))
            if op == "udiv": return fold(z3.UDiv(a, b))
            if op == "urem": return fold(z3.URem(a, b))
            if op == "sdiv": return fold(a / b)
            return fold(z3.SRem(a, b))
        raise Unsupported(op)

    def fop(self, st, I):
        rm = z3.RNE()
        v = [self.val(st, o) for o in I.ops]
        op = I.op
        if op == "fcmp":
            a, b = v
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            k = I.extra
            base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
            if k == "one": return z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
            if k == "une": return z3.Not(z3.fpEQ(a, b))
            if k == "ord": return z3.Not(un)
            if k == "uno": return un
            if k[0] == "o": return base[k[1:]](a, b)
            return z3.Or(un, base[k[1:]](a, b))
        if op == "fadd": return z3.fpAdd(rm, *v)
        if op == "fsub": return z3.fpSub(rm, *v)
        if op == "fmul": return z3.fpMul(rm, *v)
        if op == "fdiv": return z3.fpDiv(rm, *v)
        if op == "fneg": return z3.fpNeg(v[0])
        if op == "uitofp": return z3.fpUnsignedToFP(rm, v[0], z3.Float32() if I.ty.kind == "float" else z3.Float64())
        if op == "sitofp": return z3.fpSignedToFP(rm, v[0], z3.Float32() if I.ty.kind == "float" else z3.Float64())
        if op in ("fpext", "fptrunc"): return z3.fpFPToFP(rm, v[0], z3.Float32() if I.ty.kind == "float" else z3.Float64())
        if op == "fptoui": return z3.fpToUBV(z3.RTZ(), v[0], z3.BitVecSort(I.ty.bits))
        if op == "fptosi": return z3.fpToSBV(z3.RTZ(), v[0], z3.BitVecSort(I.ty.bits))
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, I, work):
        c = I.extra
        if isinstance(c, Const) and c.kind == "func": name = c.val
        elif isinstance(c, Const) and c.kind == "asm":
            return "next"
        else:
            v = self.val(st, c)
            if isinstance(v, FnPtr): name = v.name
            else:
                h = self.handler("<indirect>")
                if h is None: raise Unsupported(f"indirect call through {v!r} in {fr.fn.dem}")
                args = [v] + [self.val(st, o) for o in I.ops]
                return self.finish_call(st, fr, I, work, h(self, st, args, I))
        if name.startswith("llvm."):
            return self.intrinsic(st, fr, I, name)
        name = self.m.aliases.get(name, name)
        dem = self.m.dem.get(name, name)
        args = None
        h = self.handler(dem)
        if h is not None:
            args = [self.arg(st, o) for o in I.ops]
            res = h(self, st, args, I)
            if res is not NOTHANDLED:
                self.contracts_used.add(getattr(h, "label", dem))
                return self.finish_call(st, fr, I, work, res)
        if self.m.has(name):
            f = self.m.fn(name)
            if any(x.fn is f for x in st.frames):
                raise Unsupported(f"recursive call of {dem} without a contract")
            if len(st.frames) > 40: raise Unsupported("call depth")
            self.used.add(dem)
            args = [self.arg(st, o) for o in I.ops]
            nf = Frame(f, I)
            for a, v in zip(f.args, args): nf.env[a] = v
            st.frames.append(nf)
            return "called"
        raise Unsupported(f"call of {dem} (no body, no contract) in {fr.fn.dem}")

    def arg(self, st, o):
        if isinstance(o, Const) and o.kind in ("meta", "unknown"): return None
        return self.val(st, o)

    def finish_call(self, st, fr, I, work, res):
        """res: value | None | list of (state, value) alternatives (first element's state may be st)"""
        if isinstance(res, Alts):
            alts = list(res.alts)
            for s2, v in alts:
                f2 = s2.frames[-1]
                if I.ty.kind != "void": f2.env[I] = v
                f2.ip += 1
            for s2, v in alts:
                if s2 is not st: self.push(work, s2)
            if any(s2 is st for s2, v in alts): return "jump"
            return "end"
        if isinstance(res, Enter):          # the contract runs a real function (a constructor), then yields res.value
            f = self.m.fn(self.m.bydem.get(res.name, res.name))
            if f.decl or len(res.args) != len(f.args): raise Unsupported(f"{res.name}: no body, or another parameter list")
            if I.ty.kind != "void": fr.env[I] = res.value
            self.used.add(res.name)
            nf = Frame(f, None)
            for a, v in zip(f.args, res.args): nf.env[a] = v
            st.frames.append(nf)
            return "called"
        if I.ty.kind != "void": fr.env[I] = res
        if I.op == "invoke": raise Unsupported("invoke")
        return "next"

    def intrinsic(self, st, fr, I, name):
        a = I.ops
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stacksave", "llvm.stackrestore",
                            "llvm.va_start", "llvm.va_end", "llvm.experimental.noalias", "llvm.prefetch")):
            if I.ty.kind == "ptr": fr.env[I] = NULL
            return "next"
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, self.val(st, a[0]), self.val(st, a[1]), self.sz(self.val(st, a[2])), I.line, move=True)
            return "next"
        if name.startswith("llvm.memset"):
            self.memset(st, self.val(st, a[0]), self.val(st, a[1]), self.sz(self.val(st, a[2])), I.line)
            return "next"
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            c = {"umin": z3.ULT(x, y), "umax": z3.UGT(x, y), "smin": x < y, "smax": x > y}[name.split(".")[1]]
            fr.env[I] = fold(z3.If(c, x, y))
            return "next"
        if name.startswith("llvm.bswap"):
            x = self.val(st, a[0])
            n = x.size() // 8
            fr.env[I] = fold(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(n)]))
            return "next"
        if name.startswith("llvm.fsh"):
            x, y, z = (self.val(st, o) for o in a[:3])
            n = x.size()
            s = z3.URem(z, bv(n, n))
            cat = z3.Concat(x, y)
            sx = z3.ZeroExt(n, s)
            if name.startswith("llvm.fshl"): r = z3.Extract(2 * n - 1, n, cat << sx)
            else: r = z3.Extract(n - 1, 0, z3.LShR(cat, sx))
            fr.env[I] = fold(r)
            return "next"
        if name.startswith("llvm.abs"):
            x = self.val(st, a[0]); fr.env[I] = fold(z3.If(x < 0, -x, x)); return "next"
        if name.startswith("llvm.trap"):
            self.oblige(st, "trap is unreachable", F, "assert", I.line)
            raise PathEnd()
        if name.startswith("llvm.expect"):
            fr.env[I] = self.val(st, a[0]); return "next"
        if name.startswith("llvm.threadlocal.address"):
            fr.env[I] = self.val(st, a[0]); return "next"
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow", name)
        if m:
            x, y = self.val(st, a[0]), self.val(st, a[1])
            n = x.size()
            ext = z3.ZeroExt if m.group(1) == "u" else z3.SignExt
            op = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}[m.group(2)]
            wide = op(ext(n, x), ext(n, y))
            r = op(x, y)
            fr.env[I] = (fold(r), z3.simplify(ext(n, r) != wide))
            return "next"
        raise Unsupported(f"intrinsic {name}")

    def sz(self, v):
        return cval(v) if z3.is_bv_value(v) else v


class Enter:
    """a handler's result: run function `name` on `args`; the call yields `value`"""
    def __init__(self, name, args, value=None): self.name, self.args, self.value = name, args, value


class Alts:
    """explicit alternatives returned by a handler"""

    def __init__(self, alts): self.alts = alts


class _NH: pass


NOTHANDLED = _NH()


class _IntTy:
    kind = "int"
    elems = None

    def __init__(self, bits): self.bits, self.size = bits, bits // 8


class _PtrTy:
    kind, size, bits = "ptr", 8, None


IntTy, PtrTy = _IntTy, _PtrTy


class _PIV:
    """an integer that is the address of an object (only differences and casts back are interpreted)"""

    def __init__(self, p): self.p = p


def _PI(ex, v, bits):
    if v.r == 0: return b64(v.off) if bits == 64 else z3.Extract(bits - 1, 0, b64(v.off))
    return _PIV2(v)


class _PIV2(_PIV):
    pass


def fold(e):
    """constant folding and cheap normalisation"""
    if all(z3.is_bv_value(c) for c in e.children()) or e.num_args() == 0:
        return z3.simplify(e)
    k = e.decl().kind()
    if e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        if z3.is_bv_value(a) or z3.is_bv_value(b):
            return z3.simplify(e)
    return e


ARITH = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"}
FOPS = {"fadd", "fsub", "fmul", "fdiv"}

FAILS = [0, 0.0]             # failed obligations of this task so far, time of the first: the rest is then only sampled


class Enough(Exception):
    """the contract has failed; no need to look for more"""


SECOND_BACKEND = [None]      # set by the driver in the thorough tier: every proof is repeated with cvc5
STATS = {"z3": 0, "cvc5": 0, "z3-4.8.12": 0, "recheck": 0}


def upper(t, d=12):
    """an upper bound of an unsigned term, by structure"""
    n = t.size()
    if z3.is_bv_value(t): return t.as_long()
    top = (1 << n) - 1
    if d == 0: return top
    k = t.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT: return upper(t.arg(0), d - 1)
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for c in t.children(): r = (r << c.size()) + upper(c, d - 1)
        return r
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
        r = 0 if k == z3.Z3_OP_BADD else 1
        for c in t.children():
            u = upper(c, d - 1)
            r = r + u if k == z3.Z3_OP_BADD else r * u
        return min(r, top) if r <= top else top
    if k == z3.Z3_OP_BAND: return min(upper(c, d - 1) for c in t.children())
    if k == z3.Z3_OP_EXTRACT: return min(top, upper(t.arg(0), d - 1) >> t.decl().params()[1])
    if k == z3.Z3_OP_ITE: return max(upper(t.arg(1), d - 1), upper(t.arg(2), d - 1))
    return top


def interval(g):
    """g is visibly true: t <= constant for every value of t"""
    k = g.decl().kind()
    if k == z3.Z3_OP_AND: return all(interval(c) for c in g.children())
    if k == z3.Z3_OP_NOT and g.arg(0).decl().kind() == z3.Z3_OP_ULEQ and z3.is_bv_value(g.arg(0).arg(0)): return upper(g.arg(0).arg(1)) < g.arg(0).arg(0).as_long()
    if k == z3.Z3_OP_ULEQ and z3.is_bv_value(g.arg(1)): return upper(g.arg(0)) <= g.arg(1).as_long()
    if k == z3.Z3_OP_EQ and z3.is_bv_value(g.arg(1)) and g.arg(1).as_long() == 0 and z3.is_bv(g.arg(0)): return upper(g.arg(0)) == 0
    return False


def prove(hyps, goal, timeout, tactic=None, use_lia=True, bv_first=0):
    if bv_first and not SECOND_BACKEND[0]:
        s = z3.Solver(); s.set("timeout", int(bv_first))
        s.add(*hyps); s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            STATS["z3"] += 1
            return "proved", None, "z3"
        if r == z3.sat: return "sat", s.model(), "z3"
    if use_lia:
        try:
            r, m = lia.solve(list(hyps) + [z3.Not(goal)], timeout)
            if r == z3.unsat:
                STATS["z3"] += 1
                if SECOND_BACKEND[0]:
                    rr = external(lia.LAST[0].to_smt2(), ["cvc5"], 20)
                    if rr == "unsat":
                        STATS["recheck"] += 1
                        return "proved", None, "z3+cvc5 (exact integer translation)"
                    if rr == "sat": return "unknown", None, "cvc5 disagrees with z3"
                return "proved", None, "z3 (exact integer translation)"
            if r == z3.sat: return "sat", m, "z3 (exact integer translation)"
        except lia.NotLinear:
            pass
    s = z3.Solver() if tactic is None else z3.SolverFor(tactic)
    s.set("timeout", int(timeout))
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        STATS["z3"] += 1
        if SECOND_BACKEND[0]:
            rr = external(s.to_smt2(), ["cvc5"], 20)
            if rr == "unsat":
                STATS["recheck"] += 1
                return "proved", None, "z3+cvc5"
            if rr == "sat": return "sat", None, "cvc5 disagrees with z3"
        return "proved", None, "z3"
    if r == z3.sat: return "sat", s.model(), "z3"
    # portfolio
    if FAILS[0]: return "unknown", None, "z3"
    for tac in ("QF_AUFBV", "qfufbv"):
        if tactic == tac: continue
        try:
            s2 = z3.SolverFor(tac) if tac.startswith("QF") else z3.Then("simplify", "solve-eqs", "ackermannize_bv", "simplify", "smt").solver()
            s2.set("timeout", int(timeout))
            s2.add(*hyps); s2.add(z3.Not(goal))
            r = s2.check()
            if r == z3.unsat: STATS["z3"] += 1; return "proved", None, f"z3({tac})"
            if r == z3.sat: return "sat", s2.model(), f"z3({tac})"
        except z3.Z3Exception:
            pass
    rr = external(s.to_smt2(), ["cvc5", "z3-4.8.12"], max(30, 3 * timeout / 1000))
    if rr and rr.startswith("unsat"): return "proved", None, rr.split(":")[-1] if ":" in rr else "cvc5"
    return "unknown", None, "z3,cvc5"


def external(smt, which, tmo):
    procs = []
    fd, path = tempfile.mkstemp(suffix=".smt2", prefix="dvq")
    with os.fdopen(fd, "w") as f: f.write("(set-logic ALL)\n" + smt if "(set-logic" not in smt else smt)
    try:
        for w in which:
            cmd = {"cvc5": ["cvc5", "--lang=smt2", f"--tlimit={int(tmo * 1000)}", path],
                   "z3-4.8.12": ["/usr/bin/z3", f"-T:{int(tmo)}", path]}[w]
            try: procs.append((w, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except FileNotFoundError: pass
        end = time.time() + tmo + 2
        while procs and time.time() < end:
            for w, p in list(procs):
                if p.poll() is not None:
                    out = p.stdout.read()
                    procs.remove((w, p))
                    l = out.strip().split("\n")[0] if out.strip() else ""
                    if l in ("unsat", "sat"):
                        STATS[w] = STATS.get(w, 0) + 1
                        return l if len(which) == 1 else f"{l}:{w}"
            time.sleep(0.02)
        return None
    finally:
        for w, p in procs:
            p.kill(); p.wait()
        os.unlink(path)


def shrink(hyps, goal, small, model, tactic=None):
    """prefer a small counterexample"""
    for k in range(len(small), 0, -1):
        try:
            r, m = lia.solve(list(hyps) + [z3.Not(goal)] + list(small[:k]), 8000)
            if r == z3.sat: return m
            if r == z3.unsat: continue
        except lia.NotLinear:
            pass
        s = z3.Solver() if tactic is None else z3.SolverFor(tactic)
        s.set("timeout", 8000)
        s.add(*hyps); s.add(z3.Not(goal)); s.add(*small[:k])
        if s.check() == z3.sat: return s.model()
    return model
