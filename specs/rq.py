"""Contracts of RingQueue<T> over its abstract view: a sequence of T of length size, a capacity and the fixed/growing mode.
Representation invariant: 2 <= m_end <= element storage, m_read < m_end, m_write < m_end; a growing queue's m_end is a power of two."""
import z3
from dv import build, libc
from dv.exec import *
from . import stl

FIELDS = ["m_fixed", "m_vector", "m_read", "m_write", "m_end"]
TYPES = {"unsigned long": ({0: ("int", 8)}, 8, "uint64_t"), "std::pair<long, int>": ({0: ("int", 8), 8: ("int", 4)}, 16, "std::pair<int64_t,int32_t>")}
TEXT = """#include <cyclone_config.h>
#include <cy_core.h>
#include <functional>
#include <vector>
#include <utility/cyu_ring_queue.h>
template class cyclone::RingQueue<uint64_t>;
template class cyclone::RingQueue<std::pair<int64_t,int32_t>>;
"""
MAXN = 1 << 50
pow2 = z3.Function("pow2", z3.BitVecSort(64), z3.BoolSort())


class QLay:
    def __init__(self, L, T):
        norm = lambda s: s.replace(" ", "").replace("uint64_t", "unsignedlong").replace("int64_t", "long").replace("int32_t", "int")
        cls = next((c for c in L.d if norm(c) == norm(f"cyclone::RingQueue<{T}>")), f"cyclone::RingQueue<{T}>")
        for f in FIELDS: setattr(self, f, L.off(cls, f, FIELDS))
        self.size = L.sizeof(cls)
        self.T, (self.flds, self.stride, _) = T, TYPES[T]


class QV:
    def __init__(self, size, sel, cap=None): self.size, self.sel, self.cap = size, sel, cap     # sel(i) -> {field offset: value}


def pow2_facts(ex, st):
    st.assume(pow2(bv(2)), pow2(bv(32)), pow2(bv(1)))
    st.foralls.append(("pow2", lambda x: z3.Implies(z3.And(pow2(x), z3.ULE(x, bv(1 << 61))), pow2(z3.simplify(x * 2)))))


def make(ex, st, lay, fixed, name="q", rid=None, base=0):
    if rid is None: rid = ex.new_reg(st, name, "cells", lay.size).id
    end, rd, wr, n = (ex.fresh(f"{name}.{x}") for x in ("end", "read", "write", "vsize"))
    stl.vec_make(ex, st, rid, base + lay.m_vector, n, lay.flds, lay.stride, f"{name}.storage")
    w = st.wreg(rid)
    w.cells[base + lay.m_fixed] = (bool_to_bv(fixed, 8) if z3.is_expr(fixed) else bv(1 if fixed else 0, 8), 1)
    w.cells[base + lay.m_end], w.cells[base + lay.m_read], w.cells[base + lay.m_write] = (end, 8), (rd, 8), (wr, 8)
    st.assume(z3.ULE(bv(2), end), z3.ULE(end, n), z3.ULE(n, bv(MAXN)), z3.ULT(rd, end), z3.ULT(wr, end))
    if fixed is False: st.assume(pow2(end), z3.ULE(bv(32), end))
    return rid


def fields(ex, st, lay, rid, base=0):
    return [ex.load_cell(st, rid, base + o, 8, IntTy(64)) for o in (lay.m_end, lay.m_read, lay.m_write)]


def view(ex, st, lay, rid, base=0):
    e, r, w = fields(ex, st, lay, rid, base)
    b = ex.load_cell(st, rid, base + lay.m_vector, 8, PtrTy())
    if b.r == 0: raise Unsupported("queue storage unknown")
    fl = st.mem[b.r].fields
    size = z3.simplify(z3.If(z3.UGE(w, r), w - r, w - r + e))

    def sel(i):
        j = z3.simplify(z3.If(z3.ULT(r + i, e), r + i, r + i - e))
        return {o: f[2](j) for o, f in fl.items()}
    return QV(size, sel, z3.simplify(e - 1))


def check_inv(ex, st, lay, rid, fixed, base=0):
    e, r, w = fields(ex, st, lay, rid, base)
    p = Ptr(rid, base + lay.m_vector)
    b = stl.vec_reg(ex, st, p)
    ok = b.r != 0 and st.mem[b.r].alive
    ex.oblige(st, "invariant: element storage is alive", T if ok else F, "invariant")
    if not ok: raise PathEnd()
    ex.oblige(st, "invariant: indices and capacity are inside the element storage",
              z3.And(z3.ULE(bv(2), e), z3.ULE(e, stl.vec_count(ex, st, p)), z3.ULT(r, e), z3.ULT(w, e)), "invariant")
    if fixed is False: ex.oblige(st, "invariant: a growing queue's ring size is a power of two, at least 32", z3.And(pow2(e), z3.ULE(bv(32), e)), "invariant")
    fx = ex.load_cell(st, rid, base + lay.m_fixed, 1, IntTy(8))
    ex.oblige(st, "invariant: the mode is unchanged", (fx != 0) if fixed else (fx == 0), "invariant")


def concretise(ex, st, lay, rid, size, sel, cap=None, fixed=None, base=0, name="q'"):
    b = ex.load_cell(st, rid, base + lay.m_vector, 8, PtrTy())
    if b.r: st.wreg(b.r).alive = False
    make(ex, st, lay, fixed, name, rid, base)
    e, r, w = fields(ex, st, lay, rid, base)
    b = ex.load_cell(st, rid, base + lay.m_vector, 8, PtrTy())
    reg = st.wreg(b.r)
    for o, (k, sz, old) in list(reg.fields.items()):
        def nsel(j, o=o, old=old):
            rel = z3.If(z3.UGE(j, r), j - r, j - r + e)
            return z3.If(z3.ULT(rel, size), sel(z3.simplify(rel))[o], old(j))
        reg.fields[o] = (k, sz, nsel)
    st.assume(z3.ULT(size, e))
    nw = z3.simplify(z3.If(z3.ULT(r + size, e), r + size, r + size - e))
    st.wreg(rid).cells[base + lay.m_write] = (nw, 8)
    if cap is not None: st.assume(e - 1 == cap)


def merge(c, a, b): return {o: z3.If(c, a[o], b[o]) for o in a}


def append(v, val): return QV(z3.simplify(v.size + 1), lambda i: merge(z3.ULT(i, v.size), v.sel(i), val))
def drop(v, n): return QV(z3.simplify(v.size - n), lambda i: v.sel(z3.simplify(i + n)))


def read_rec(ex, st, lay, p):
    return {o: ex.load(st, Ptr(p.r, add64(p.off, o), p.idx), IntTy(8 * n)) for o, (k, n) in lay.flds.items()}


def eqrec(a, b): return z3.And([a[o] == b[o] for o in a])


def sig(m, lay, name):
    c = [d for d in m.bydem if d.replace("> >", ">>").startswith(f"cyclone::RingQueue<{lay.T}>::{name}(") and m.has(m.bydem[d])]
    if len(c) != 1: raise build.BuildError(f"RingQueue<{lay.T}>::{name}: {len(c)} definitions")
    return c[0]
