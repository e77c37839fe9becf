"""Contracts of RingBuf, shared by every property that uses one.

Abstract state (ghost view) of a ring buffer: a byte sequence `view` of length `size` and a `capacity`.
Representation invariant: storage of exactly m_end bytes is owned, 1 <= m_end <= 2^61, m_read < m_end,
m_write < m_end; size = m_write - m_read (+ m_end if negative); view(i) = storage[(m_read + i) mod m_end]."""
import z3
from dv import build, libc
from dv.exec import *

CLS = "cyclone::RingBuf"
FIELDS = ["m_buf", "m_end", "m_read", "m_write"]
LIM = 1 << 61
SRC = ["source/cyCore/core/cyc_ring_buf.cpp", "source/cyCrypt/crypt/cyr_adler32.cpp"]


# members that no listed translation unit uses are instantiated here (nothing but a call, so that their real bodies are emitted)
WRAP = """#include <cy_core.h>
bool dv_use_full(cyclone::RingBuf& r) { return r.full(); }
bool dv_use_empty(cyclone::RingBuf& r) { return r.empty(); }
size_t dv_use_free(cyclone::RingBuf& r) { return r.get_free_size() + r.capacity() + r.size(); }
void dv_use_reset(cyclone::RingBuf& r) { r.reset(); }
"""


class Lay:
    def __init__(self, L):
        for f in FIELDS: setattr(self, f, L.off(CLS, f, FIELDS))
        self.size = L.sizeof(CLS)


class View:
    def __init__(self, size, sel, cap=None): self.size, self.sel, self.cap = size, sel, cap


def I64(x): return b64(x)


def make(ex, st, lay, name="rb", rid=None, base=0):
    """an arbitrary ring buffer satisfying the invariant; returns the region id of the object"""
    if rid is None:
        r = ex.new_reg(st, name, "cells", lay.size)
        rid = r.id
    end, rd, wr = ex.fresh(f"{name}.end"), ex.fresh(f"{name}.read"), ex.fresh(f"{name}.write")
    b = ex.new_reg(st, f"{name}.storage", "bytes", end)
    b.heap = True
    st.ghost["heap"] = st.ghost.get("heap", ()) + (b.id,)
    w = st.wreg(rid)
    w.cells[base + lay.m_buf] = (Ptr(b.id, 0), 8)
    w.cells[base + lay.m_end] = (end, 8)
    w.cells[base + lay.m_read] = (rd, 8)
    w.cells[base + lay.m_write] = (wr, 8)
    st.assume(z3.ULE(bv(1), end), z3.ULE(end, bv(LIM)), z3.ULT(rd, end), z3.ULT(wr, end))
    return rid


def make_pure(ex, st, lay, name="rb", rid=None, base=0, cap=None):
    """an arbitrary ring buffer as its callers see it: a byte sequence and a capacity, no storage"""
    if rid is None: rid = ex.new_reg(st, name, "cells", lay.size).id
    n, c = ex.fresh(f"{name}.size"), ex.fresh(f"{name}.cap")
    f = z3.Function(f"{name}.bytes!{rid}!{base}!{len(st.ghost.get('rbv', {}))}", z3.BitVecSort(64), z3.BitVecSort(8))
    st.assume(z3.ULE(n, c), z3.ULT(c, bv(LIM)))
    set_pure(st, rid, base, View(n, lambda i: f(b64(i)), c))
    return rid


def set_pure(st, rid, base, v):
    d = dict(st.ghost.get("rbv", {}))
    d[(rid, base)] = v
    st.ghost["rbv"] = d


def pure(st, rid, base): return st.ghost.get("rbv", {}).get((rid, base))


def cap_at_least(ex, st, lay, rid, base, n):
    v = pure(st, rid, base)
    if v is not None: st.assume(z3.UGE(v.cap, n))
    else: st.assume(z3.UGE(fields(ex, st, lay, rid, base)[1] - 1, n))


def fields(ex, st, lay, rid, base=0):
    p = ex.load_cell(st, rid, base + lay.m_buf, 8, PtrTy())
    e, r, w = (ex.load_cell(st, rid, base + o, 8, IntTy(64)) for o in (lay.m_end, lay.m_read, lay.m_write))
    return p, e, r, w


def view(ex, st, lay, rid, base=0):
    if pure(st, rid, base) is not None: return pure(st, rid, base)
    p, e, r, w = fields(ex, st, lay, rid, base)
    size = z3.simplify(z3.If(z3.UGE(w, r), w - r, w - r + e))
    if p.r == 0: raise Unsupported("ring buffer storage pointer is not an object")
    cont = st.mem[p.r].content
    if cont is None: raise Unsupported("ring buffer storage has unknown content")
    off = b64(p.off)

    def sel(i):
        i = b64(i)
        return cont.sel(z3.simplify(off + z3.If(z3.ULT(r + i, e), r + i, r + i - e)))
    return View(size, sel, z3.simplify(e - 1))


def check_inv(ex, st, lay, rid, tag="", base=0):
    p, e, r, w = fields(ex, st, lay, rid, base)
    ex.oblige(st, f"invariant{tag}: storage is a live allocation", T if (isinstance(p, Ptr) and p.r != 0 and st.mem[p.r].alive and p.off == 0) else F, "invariant")
    if p.r == 0: raise PathEnd()
    ex.oblige(st, f"invariant{tag}: storage size, read and write offsets in range",
              z3.And(z3.ULE(bv(1), e), z3.ULT(r, e), z3.ULT(w, e), b64(st.mem[p.r].size) == e), "invariant")


def concretise(ex, st, lay, rid, size, sel, cap=None, base=0, name="rb'"):
    """replace the object's state by an arbitrary representation of the given view (capacity >= size, or as given)"""
    if pure(st, rid, base) is not None:
        c = ex.fresh("cap") if cap is None else b64(cap)
        size = z3.simplify(b64(size))
        if cap is None: st.assume(z3.ULE(size, c), z3.ULT(c, bv(LIM)))
        set_pure(st, rid, base, View(size, sel, c))
        return
    p, e, r, w = fields(ex, st, lay, rid, base)
    if p.r: st.wreg(p.r).alive = False
    st.ghost["heap"] = tuple(x for x in st.ghost.get("heap", ()) if x != p.r)
    make(ex, st, lay, name, rid, base)
    p, e, r, w = fields(ex, st, lay, rid, base)
    c = st.mem[p.r].content
    size = b64(size)
    reg = st.wreg(p.r)

    def cont(j):
        rel = z3.If(z3.UGE(j, r), j - r, j - r + e)
        return z3.If(z3.ULT(rel, size), sel(z3.simplify(rel)), c.sel(j))
    reg.content = CFun(cont)
    st.assume(z3.ULT(size, e))
    nw = z3.simplify(z3.If(z3.ULT(r + size, e), r + size, r + size - e))
    st.wreg(rid).cells[base + lay.m_write] = (nw, 8)
    if cap is not None: st.assume(e - 1 == b64(cap))


def umin(a, b): return z3.If(z3.ULE(a, b), a, b)


# ---------------------------------------------------------------------------- the contracts, as functions on views
def append(v, n, src):
    return View(z3.simplify(v.size + n), lambda i: z3.If(z3.ULT(i, v.size), v.sel(i), src(z3.simplify(i - v.size))))


def drop(v, n):
    return View(z3.simplify(v.size - n), lambda i: v.sel(z3.simplify(i + n)))


def ptr_bytes(ex, st, p):
    """content closure of the memory behind p (evaluated in state st)"""
    p = ex.resolve(st, p)
    if p.r == 0: raise Unsupported("data pointer is not an object")
    r = st.mem[p.r]
    off = b64(p.off)
    if r.kind == "bytes":
        c = r.content
        return lambda i: c.sel(z3.simplify(off + i))
    if r.kind == "cells":
        c = ex.cells_content(st, p.r)
        return lambda i: c.sel(z3.simplify(off + i))
    raise Unsupported("data pointer into records")


def need_range(ex, st, p, n, I, write, what):
    if is_c(n) and cval(n) == 0: return
    p = ex.resolve(st, p)
    if not is_c(n) and p.r == 0:
        ex.oblige(st, f"{what}: empty range or valid pointer", n == 0, "callee precondition", I.line)
        return
    ex.check_access(st, p, ex.sz(n), write, I.line, what)


def write_bytes(ex, st, p, n, sel, line):
    """dst[0..n) := sel"""
    p = ex.resolve(st, p)
    n = cval(n) if z3.is_bv_value(n) else n
    if isinstance(n, int) and n == 0: return
    r = st.mem[p.r]
    if r.kind == "bytes":
        w = st.wreg(p.r)
        w.content = CCopy(r.content, p.off, n, CFun(sel), 0)
        return
    if not isinstance(n, int):
        n2 = ex.concretize(st, n)
        if n2 is None:
            if r.kind == "cells" and isinstance(r.size, int) and r.size <= 64 and isinstance(p.off, int):
                for k in range(r.size - p.off):
                    old = ex.load_cell(st, p.r, p.off + k, 1, IntTy(8))
                    ex.store_cell(st, p.r, p.off + k, 1, z3.If(z3.ULT(bv(k), n), sel(bv(k)), old))
                return
            raise Unsupported("symbolic-length write into object storage")
        n = n2
    for k in range(n): ex.store(st, Ptr(p.r, add64(p.off, k), p.idx), sel(bv(k)), 1, line)


def install(ex, lay, which):
    """use the contracts (not the bodies) of the named RingBuf members at call sites"""
    def loc(ex, st, p):
        p = ex.resolve(st, p)
        if not isinstance(p, Ptr) or p.r == 0 or not isinstance(p.off, int): raise Unsupported("ring buffer object unknown")
        if not st.mem[p.r].alive:
            ex.oblige(st, "ring buffer is alive when used", F, "memory")
            raise PathEnd()
        return p.r, p.off

    def count_ok(ex, st, n, I):
        ex.oblige(st, "byte count is below 2^61", z3.ULE(n, bv(LIM)), "callee precondition", I.line)

    def memcpy_into(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        need_range(ex, st, a[1], a[2], I, False, "memcpy_into source")
        src = ptr_bytes(ex, st, a[1]) if not (is_null(a[1]) or a[1].r == 0) else (lambda i: bv(0, 8))
        nv = append(v, a[2], src)
        st.ghost["rb_writes"] = st.ghost.get("rb_writes", ()) + ((rid, b, a[2]),)
        concretise(ex, st, lay, rid, nv.size, nv.sel, None, b)
        cap_at_least(ex, st, lay, rid, b, v.cap)

    def memcpy_out(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        n = z3.simplify(umin(a[2], v.size))
        need_range(ex, st, a[1], n, I, True, "memcpy_out destination")
        if not (z3.is_bv_value(n) and n.as_long() == 0) and a[1].r: write_bytes(ex, st, a[1], n, v.sel, I.line)
        nv = drop(v, n)
        concretise(ex, st, lay, rid, nv.size, nv.sel, v.cap, b)
        return n

    def moveto(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        did, db = loc(ex, st, a[1])
        ex.oblige(st, "moveto: distinct buffers", F if (rid, b) == (did, db) else T, "callee precondition", I.line)
        v, d = view(ex, st, lay, rid, b), view(ex, st, lay, did, db)
        n = z3.simplify(umin(a[2], v.size))
        nd = append(d, n, v.sel)
        nv = drop(v, n)
        concretise(ex, st, lay, did, nd.size, nd.sel, None, db)
        cap_at_least(ex, st, lay, did, db, d.cap)
        concretise(ex, st, lay, rid, nv.size, nv.sel, v.cap, b)
        return n

    def discard(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        n = z3.simplify(umin(a[1], v.size))
        nv = drop(v, n)
        concretise(ex, st, lay, rid, nv.size, nv.sel, v.cap, b)
        return n

    def peek(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        off, dst, cnt = a[1], a[2], a[3]
        n = z3.simplify(z3.If(z3.UGT(off, v.size), bv(0), umin(cnt, v.size - off)))
        if is_null(dst): return bv(0)
        need_range(ex, st, dst, n, I, True, "peek destination")
        write_bytes(ex, st, dst, n, lambda i: v.sel(z3.simplify(off + i)), I.line)
        return n

    def resize(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        concretise(ex, st, lay, rid, v.size, v.sel, None, b)
        cap_at_least(ex, st, lay, rid, b, a[1])
        cap_at_least(ex, st, lay, rid, b, v.cap)

    def reset(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        concretise(ex, st, lay, rid, bv(0), v.sel, v.cap, b)

    def size(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        return view(ex, st, lay, rid, b).size

    def empty(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        return z3.simplify(view(ex, st, lay, rid, b).size == 0)

    def capacity(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        return view(ex, st, lay, rid, b).cap

    def free_size(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        return z3.simplify(v.cap - v.size)

    def full(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        return z3.simplify(v.cap == v.size)

    def normalize(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        if pure(st, rid, b) is not None:
            r = ex.new_reg(st, "normalized", "bytes", v.size)
            r.const = True
            st.mem[r.id].content = CFun(lambda i: v.sel(i))
            return Ptr(r.id, 0)
        concretise(ex, st, lay, rid, v.size, v.sel, v.cap, b)
        p, e, r, w = fields(ex, st, lay, rid, b)
        st.assume(z3.UGE(w, r), z3.ULE(r + v.size, e))
        return Ptr(p.r, r)

    def search(ex, st, a, I):
        rid, b = loc(ex, st, a[0])
        v = view(ex, st, lay, rid, b)
        off, c = a[1], a[2]
        k = ex.fresh("search_pos")
        s2 = st.clone()
        st.assume(z3.UGE(k, off), z3.ULT(k, v.size), v.sel(k) == c)
        # (the 'no earlier occurrence' half of the contract is not needed by any caller)
        return Alts([x for x in ((st, k), (s2, bv(-1))) if ex.feasible(x[0])])

    def ctor(ex, st, a, I):
        p = ex.resolve(st, a[0])
        if st.ghost.get("rb_pure"):
            ex.oblige(st, "ring buffer capacity below 2^61", z3.ULT(a[1], bv(LIM)), "callee precondition", I.line)
            set_pure(st, p.r, p.off, View(bv(0), lambda i: bv(0, 8), a[1]))
            return
        make(ex, st, lay, "rb", p.r, p.off)
        _, e, r, w = fields(ex, st, lay, p.r, p.off)
        ex.oblige(st, "ring buffer capacity below 2^61", z3.ULT(a[1], bv(LIM)), "callee precondition", I.line)
        st.assume(e == a[1] + 1, r == w)

    def dtor(ex, st, a, I):
        p = ex.resolve(st, a[0])
        if pure(st, p.r, p.off) is not None:
            d = dict(st.ghost["rbv"])
            del d[(p.r, p.off)]
            st.ghost["rbv"] = d
            return
        f = fields(ex, st, lay, p.r, p.off)[0]
        if f.r:
            st.wreg(f.r).alive = False
            st.ghost["heap"] = tuple(x for x in st.ghost.get("heap", ()) if x != f.r)

    tab = dict(memcpy_into=memcpy_into, memcpy_out=memcpy_out, moveto=moveto, discard=discard, peek=peek, resize=resize,
               reset=reset, size=size, empty=empty, capacity=capacity, get_free_size=free_size, full=full,
               normalize=normalize, search=search)
    for n in which:
        if n == "ctor": ex.on(r"^cyclone::RingBuf::RingBuf\(unsigned long\)$", ctor)
        elif n == "dtor": ex.on(r"^cyclone::RingBuf::~RingBuf\(\)$", dtor)
        else:
            tab[n].label = f"contract RingBuf::{n}"
            ex.on(rf"^cyclone::RingBuf::{n}\(.*\)( const)?$", tab[n])


ALL = ["memcpy_into", "memcpy_out", "moveto", "discard", "peek", "resize", "reset", "size", "empty", "capacity",
       "get_free_size", "full", "normalize", "search", "ctor", "dtor"]


def sig(m, name):
    c = [d for d in m.bydem if d.startswith(f"cyclone::RingBuf::{name}(") and m.has(m.bydem[d])]
    if len(c) != 1: raise build.BuildError(f"RingBuf::{name}: {len(c)} definitions found")
    return c[0]


def rb_cex(ex, lay, init, args):
    """counterexample extraction: initial representation + arguments, small sizes only"""
    def f(st, model):
        def num(t): return model.eval(t, model_completion=True).as_long()
        d = {"end": num(init["end"]), "read": num(init["read"]), "write": num(init["write"])}
        for k, t in args.items():
            d[k] = num(t) if z3.is_expr(t) else t
        if d["end"] <= 4096:
            c = init["content"]
            d["data"] = [num(c.sel(bv(i))) for i in range(d["end"])]
        return d
    return f
