"""Trusted contracts of the parts of the C++ standard library that containers in the code under contract use."""
import z3
from dv.exec import *

TRUST = ["std::vector<T>::resize keeps the first min(old,new) elements, value-initialises the rest and may move the storage; "
         "std::move over iterators moves the range element by element (it must not start inside the moved range)",
         "std::function: a call runs the stored callable once; comparison with nullptr tells whether one is stored"]


def elems(ex, st, name, count, flds, stride):
    """a fresh array of `count` records; flds: {offset: (kind, size)} with arbitrary contents"""
    r = ex.new_reg(st, name, "elems", None)
    w = st.mem[r.id]
    w.stride, w.count, w.heap = stride, count, True
    w.fields = {}
    for o, (k, n) in flds.items():
        f = z3.Function(f"{name}#{r.id}.{o}", z3.BitVecSort(64), z3.BitVecSort(8 * n))
        w.fields[o] = (k, n, lambda i, f=f: f(b64(i)))
    return r


def vec_make(ex, st, rid, off, count, flds, stride, name="vec"):
    r = elems(ex, st, name, count, flds, stride)
    w = st.wreg(rid)
    w.cells[off] = (Ptr(r.id, 0, bv(0)), 8)
    w.cells[off + 8] = (Ptr(r.id, 0, b64(count)), 8)
    w.cells[off + 16] = (Ptr(r.id, 0, b64(count)), 8)
    return r


def vec_reg(ex, st, p):
    """element region of the vector object at p (0 when empty)"""
    b = ex.load_cell(st, p.r, p.off, 8, PtrTy())
    return b


def vec_count(ex, st, p):
    b, e = ex.load_cell(st, p.r, p.off, 8, PtrTy()), ex.load_cell(st, p.r, p.off + 8, 8, PtrTy())
    if b.r == 0: return bv(0)
    return z3.simplify(b64(e.idx) - b64(b.idx))


def install_vector(ex, flds, stride, rx=r"^std::vector<.*>::"):
    def ctor(ex, st, a, I):
        w = st.wreg(a[0].r)
        for k in (0, 8, 16): w.cells[a[0].off + k] = (NULL, 8)

    def resize(ex, st, a, I):
        p, n = a[0], a[1]
        b = vec_reg(ex, st, p)
        old = vec_count(ex, st, p)
        ex.oblige(st, "vector size below 2^58", z3.ULE(n, bv(1 << 58)), "callee precondition", I.line)
        r = elems(ex, st, "vec", n, flds, stride)
        w = st.mem[r.id]
        for o, (k, sz, sel) in list(w.fields.items()):
            if b.r:
                osel = st.mem[b.r].fields[o][2]
                w.fields[o] = (k, sz, lambda i, osel=osel, sz=sz: z3.If(z3.ULT(i, old), osel(i), bv(0, 8 * sz)))
            else: w.fields[o] = (k, sz, lambda i, sz=sz: bv(0, 8 * sz))
        if b.r: st.wreg(b.r).alive = False
        w = st.wreg(p.r)
        w.cells[p.off] = (Ptr(r.id, 0, bv(0)), 8)
        w.cells[p.off + 8] = (Ptr(r.id, 0, b64(n)), 8)
        w.cells[p.off + 16] = (Ptr(r.id, 0, b64(n)), 8)
    resize.label = "std::vector::resize"
    ex.on(rx + r"resize\(unsigned long\)$", resize)
    ex.on(rx + r"vector\(\)$", ctor)

    def dtor(ex, st, a, I):
        b = vec_reg(ex, st, a[0])
        if b.r: st.wreg(b.r).alive = False
    ex.on(rx + r"~vector\(\)$", dtor)

    def move(ex, st, a, I):
        f, l, d = a[:3]
        if not (f.r == l.r): raise Unsupported("iterator range over two arrays")
        n = z3.simplify(b64(l.idx) - b64(f.idx))
        cs, cd = st.mem[f.r].count, st.mem[d.r].count
        ex.oblige(st, "iterator range is inside the array", z3.And(z3.ULE(b64(f.idx), b64(l.idx)), z3.ULE(b64(l.idx), b64(cs))), "memory", I.line)
        ex.oblige(st, "destination range is inside the array", z3.And(z3.ULE(b64(d.idx), b64(cd)), z3.ULE(n, b64(cd) - b64(d.idx))), "memory", I.line)
        if d.r == f.r:
            ex.oblige(st, "destination does not start inside the moved range", z3.Or(n == 0, z3.ULE(b64(d.idx), b64(f.idx)), z3.ULE(b64(l.idx), b64(d.idx))), "callee precondition", I.line)
        src = st.mem[f.r].fields
        w = st.wreg(d.r)
        for o, (k, sz, sel) in list(w.fields.items()):
            ss = src[o][2]
            w.fields[o] = (k, sz, lambda i, sel=sel, ss=ss, d0=b64(d.idx), f0=b64(f.idx): z3.If(z3.ULT(i - d0, n), ss(z3.simplify(f0 + (i - d0))), sel(i)))
        return Ptr(d.r, 0, z3.simplify(b64(d.idx) + n))
    move.label = "std::move(range)/std::copy"
    ex.on(r"^__gnu_cxx::__normal_iterator<.*std::(move|copy)<__gnu_cxx::__normal_iterator<", move)
    ex.on(r"^.*\* std::(move|copy)<[^(]*\*, [^(]*\*>\(", move)
