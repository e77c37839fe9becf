"""Trusted contracts of the C library / C++ runtime functions that the code under contract calls."""
import z3
from .exec import *
from .exec import _IntTy


TRUSTED = {}


def trust(name, text):
    TRUSTED[name] = text


def install(ex, heap_limit=1 << 62):
    """malloc/free/new/delete, mem* and assert"""
    def malloc(ex, st, a, I):
        n = a[0]
        n = cval(n) if z3.is_bv_value(n) else n
        r = None
        if ex.malloc_hook: r = ex.malloc_hook(ex, st, n, I)
        if r is None:
            small = isinstance(n, int) and n <= 512
            r = ex.new_reg(st, f"heap{I.line}", "cells" if small else "bytes", n)
        r.heap = True
        st.ghost["heap"] = st.ghost.get("heap", ()) + (r.id,)
        return Ptr(r.id, 0, bv(0) if r.kind == "elems" else None)
    malloc.label = "malloc/operator new"
    ex.on(r"^(malloc|operator new(\[\])?\(unsigned long\))$", malloc)

    def calloc(ex, st, a, I):
        n = z3.simplify(a[0] * a[1])
        n = cval(n) if z3.is_bv_value(n) else n
        r = ex.new_reg(st, f"heap{I.line}", "cells" if isinstance(n, int) and n <= 512 else "bytes", n)
        r.heap = True
        if r.kind == "cells": r.zero = True
        else: r.content = CFun(lambda i: bv(0, 8))
        st.ghost["heap"] = st.ghost.get("heap", ()) + (r.id,)
        return Ptr(r.id, 0)
    ex.on(r"^calloc$", calloc)

    def free(ex, st, a, I):
        p = a[0]
        if is_null(p): return None
        if p.r == 0:
            ex.oblige(st, "only allocated storage is freed", z3.simplify(b64(p.off) == 0), "memory", I.line)
            return None
        r = st.mem[p.r]
        if not r.alive or not r.heap:
            ex.oblige(st, f"storage freed exactly once ({r.name})", F, "memory", I.line)
            raise PathEnd()
        ex.oblige(st, "free gets the start of the allocation", z3.simplify(b64(p.off) == 0), "memory", I.line)
        st.wreg(p.r).alive = False
        st.ghost["heap"] = tuple(x for x in st.ghost.get("heap", ()) if x != p.r)
        return None
    free.label = "free/operator delete"
    ex.on(r"^(free|operator delete(\[\])?\(void\*(, unsigned long)?\))$", free)

    def memcpy(ex, st, a, I):
        ex.memcpy(st, a[0], a[1], ex.sz(a[2]), I.line)
        return a[0]
    memcpy.label = "memcpy"
    ex.on(r"^memcpy$", memcpy)

    def memmove(ex, st, a, I):
        ex.memcpy(st, a[0], a[1], ex.sz(a[2]), I.line, move=True)
        return a[0]
    memmove.label = "memmove"
    ex.on(r"^memmove$", memmove)

    def memset(ex, st, a, I):
        ex.memset(st, a[0], z3.simplify(z3.Extract(7, 0, a[1])), ex.sz(a[2]), I.line)
        return a[0]
    memset.label = "memset"
    ex.on(r"^memset$", memset)

    def memchr(ex, st, a, I):
        p, c, n = ex.resolve(st, a[0]), z3.simplify(z3.Extract(7, 0, a[1])), a[2]
        if z3.is_bv_value(n) and n.as_long() == 0: return NULL
        r = ex.check_access(st, p, ex.sz(n), False, I.line, "memchr range")
        if r.kind != "bytes": raise Unsupported("memchr over objects")
        cont, off = r.content, b64(p.off)
        k = ex.fresh("memchr_k")
        base = _base_names(cont)
        s2 = st.clone()
        # found
        st.assume(z3.ULT(k, n), cont.sel(off + k) == c)
        for b in base:
            st.foralls.append((b, lambda i, k=k: z3.Implies(z3.ULT(i - off, k), cont.sel(i) != c)))
            s2.foralls.append((b, lambda i: z3.Implies(z3.ULT(i - off, n), cont.sel(i) != c)))
        alts = []
        if ex.feasible(st): alts.append((st, Ptr(p.r, z3.simplify(off + k))))
        if ex.feasible(s2): alts.append((s2, NULL))
        if not alts: raise PathEnd()
        return Alts(alts)
    memchr.label = "memchr"
    ex.on(r"^memchr$", memchr)

    def assert_fail(ex, st, a, I):
        ex.oblige(st, f"assertion at line {I.line} holds", F, "assert", I.line)
        raise PathEnd()
    assert_fail.label = "__assert_fail (unreachable)"
    ex.on(r"^__assert_fail$", assert_fail)

    def abort(ex, st, a, I):
        ex.oblige(st, f"abort/terminate at line {I.line} is unreachable", F, "assert", I.line)
        raise PathEnd()
    ex.on(r"^(abort|std::terminate\(\)|__clang_call_terminate|std::__throw_.*|exit|_exit)(\(.*)?$", abort)


def _base_names(c, out=None):
    out = [] if out is None else out
    if isinstance(c, CBase): out.append(c.name)
    elif isinstance(c, (CStore, CFill)): _base_names(c.prev, out)
    elif isinstance(c, CCopy): _base_names(c.prev, out); _base_names(c.src, out)
    return out


TRUST_TEXT = [
    "malloc/operator new: returns fresh, non-null, correctly sized storage with arbitrary content; free/operator delete releases it (allocation failure is not modelled)",
    "memcpy/memmove/memset/memchr: ISO C semantics (memcpy additionally requires non-overlap, which is an obligation)",
]
