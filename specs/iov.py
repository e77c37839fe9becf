"""Trusted contracts of the kernel transfer calls readv / writev / read / write (and socket_api::read/write built on them)."""
import z3
from dv.exec import *

TRUST = ["readv/writev/read/write: return -1, 0 or a count n not exceeding the offered total, and transfer exactly the first n offered "
         "bytes in iovec order (a read delivers the next n bytes of the incoming stream); nothing else is changed"]


def iovecs(ex, st, vec, n, I):
    if not z3.is_bv_value(n):
        c = ex.concretize(st, n)
        if c is None: raise Unsupported("iovec count not concrete")
        n = bv(c, 32)
    n = n.as_long()
    ex.oblige(st, "iovec count is valid", T if n < 1024 else F, "callee precondition", I.line)
    out = []
    for k in range(n):
        b = ex.load(st, Ptr(vec.r, add64(vec.off, 16 * k)), PtrTy(), I.line)
        l = ex.load(st, Ptr(vec.r, add64(vec.off, 16 * k + 8)), IntTy(64), I.line)
        out.append((b, l))
    return out


def read_into(ex, st, parts, kern, line, tag="read"):
    """parts: [(ptr, len)]; returns (total, result) after writing the delivered bytes; result is a fresh 64-bit value"""
    total = bv(0)
    for p, l in parts:
        if not (z3.is_bv_value(l) and l.as_long() == 0):
            ex.check_access(st, ex.resolve(st, p), ex.sz(l), True, line, f"{tag} destination offered to the kernel")
        total = z3.simplify(total + l)
    r = ex.fresh(f"{tag}_ret")
    st.assume(z3.Or(r == bv(-1), z3.ULE(r, total)))
    base = bv(0)
    for p, l in parts:
        if z3.is_bv_value(l) and l.as_long() == 0: continue
        p = ex.resolve(st, p)
        reg = st.mem[p.r]
        got = z3.If(r == bv(-1), bv(0), z3.If(z3.UGT(r, base), z3.If(z3.ULT(r - base, l), r - base, l), bv(0)))
        if reg.kind != "bytes":
            if not z3.is_bv_value(l) or l.as_long() > 256 or reg.kind != "cells" or not isinstance(p.off, int): raise Unsupported("kernel read into an object")
            for k in range(l.as_long()):
                old = ex.load_cell(st, p.r, p.off + k, 1, IntTy(8))
                ex.store_cell(st, p.r, p.off + k, 1, z3.If(z3.ULT(bv(k), got), kern(z3.simplify(base + k)), old))
            base = z3.simplify(base + l)
            continue
        w = st.wreg(p.r)
        w.content = CCopy(reg.content, p.off, z3.simplify(got), CFun(kern), base)
        base = z3.simplify(base + l)
    return total, r


def gather(ex, st, parts, line, tag="write"):
    """(total, sel): the byte sequence offered to the kernel"""
    total = bv(0)
    segs = []
    for p, l in parts:
        if not (z3.is_bv_value(l) and l.as_long() == 0):
            p = ex.resolve(st, p)
            ex.check_access(st, p, ex.sz(l), False, line, f"{tag} source offered to the kernel")
            reg = st.mem[p.r]
            c = reg.content if reg.kind == "bytes" else ex.cells_content(st, p.r)
            segs.append((total, l, c, b64(p.off)))
        total = z3.simplify(total + l)

    def sel(i):
        e = bv(0, 8)
        for base, l, c, o in reversed(segs):
            e = z3.If(z3.And(z3.UGE(i, base), z3.ULT(i - base, l)), c.sel(z3.simplify(o + i - base)), e)
        return e
    return total, sel
