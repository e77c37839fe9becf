"""C01  ring buffer is an exact, lossless byte FIFO for every layout"""
import z3
from dv import build as bld, libc
from dv.exec import *
from dv.loops import PureLoop
import re
from . import rb, rbnative
from .rb import *

M = L = lay = None
TRUSTED = libc.TRUST_TEXT
ASSUMPTIONS = ["capacities, counts and requested sizes are at most 2^61 bytes",
               "the caller's memory range does not overlap the ring buffer's own storage; moveto is given two distinct buffers"]


def build_():
    global M, L, lay
    M, L = bld.module(rb.SRC, text=rb.WRAP)
    lay = Lay(L)


def start(v, fname, use=(), unroll=8):
    ex = v.exec(M, f"RingBuf::{fname}", max_unroll=unroll)
    libc.install(ex)
    if use: rb.install(ex, lay, use)
    st = State()
    rid = make(ex, st, lay)
    p, e, r, w = fields(ex, st, lay, rid)
    init = dict(end=e, read=r, write=w, content=st.mem[p.r].content)
    v0 = view(ex, st, lay, rid)
    ex.small = [z3.ULE(e, bv(16))]
    return ex, st, rid, v0, init


def cexf(ex, init, op, args):
    f = rb_cex(ex, lay, init, args)

    def g(st, model):
        d = f(st, model)
        d["op"] = op
        return d
    ex.cexfn = g


def heap_ok(ex, st, allowed):
    left = [h for h in st.ghost.get("heap", ()) if h not in allowed]
    ex.oblige(st, "no storage is leaked", T if not left else F, "memory")


def storage(ex, st, rid):
    return fields(ex, st, lay, rid)[0].r


def eqview(ex, st, rid, want, tag=""):
    got = view(ex, st, lay, rid)
    ex.oblige(st, f"size of the content afterwards is exact{tag}", got.size == want.size, "postcondition")
    i = ex.fresh("i")
    ex.oblige(st, f"every byte of the content afterwards is exact{tag}",
              z3.Implies(z3.ULT(i, want.size), got.sel(i) == want.sel(i)), "postcondition")
    return got


def t_memcpy_into(v):
    ex, st, rid, v0, init = start(v, "memcpy_into", ["resize"] if has("resize") else ())
    n = ex.fresh("count")
    st.assume(z3.ULE(n, bv(1 << 60)), z3.ULE(v0.cap, bv(1 << 60)))
    src = ex.new_reg(st, "src", "bytes", n); src.const = True
    ex.small.insert(0, z3.ULE(n, bv(40)))
    cexf(ex, init, "into", {"count": n})
    v.cover(ex, st)
    want = append(v0, n, src.content.sel)

    def ret(s, r):
        check_inv(ex, s, lay, rid)
        got = eqview(ex, s, rid, want)
        ex.oblige(s, "capacity never shrinks", z3.UGE(got.cap, v0.cap), "postcondition")
        heap_ok(ex, s, [storage(ex, s, rid)])
    ex.run(st, sig(M, "memcpy_into"), [Ptr(rid), Ptr(src.id), n], ret)


def t_memcpy_out(v):
    ex, st, rid, v0, init = start(v, "memcpy_out")
    n = ex.fresh("count")
    k = z3.simplify(umin(n, v0.size))
    dst = ex.new_reg(st, "dst", "bytes", k)
    ex.small.insert(0, z3.ULE(n, bv(40)))
    cexf(ex, init, "out", {"count": n})
    v.cover(ex, st)

    def ret(s, r):
        check_inv(ex, s, lay, rid)
        ex.oblige(s, "returned count = min(count, size)", r == k, "postcondition")
        i = ex.fresh("i")
        ex.oblige(s, "bytes copied out are the oldest bytes, in order",
                  z3.Implies(z3.ULT(i, k), s.mem[dst.id].content.sel(i) == v0.sel(i)), "postcondition")
        got = eqview(ex, s, rid, drop(v0, k))
        ex.oblige(s, "capacity unchanged", got.cap == v0.cap, "postcondition")
        heap_ok(ex, s, [storage(ex, s, rid)])
    ex.run(st, sig(M, "memcpy_out"), [Ptr(rid), Ptr(dst.id), n], ret)


def t_moveto(v):
    ex, st, rid, v0, init = start(v, "moveto", ["memcpy_into"])
    did = make(ex, st, lay, "dst")
    d0 = view(ex, st, lay, did)
    n = ex.fresh("count")
    k = z3.simplify(umin(n, v0.size))
    dp, de, dr, dw = fields(ex, st, lay, did)
    st.assume(z3.ULE(v0.cap, bv(1 << 60)), z3.ULE(d0.cap, bv(1 << 60)))
    ex.small[:0] = [z3.ULE(n, bv(40)), z3.ULE(de, bv(16))]
    cexf(ex, init, "move", {"count": n, "dend": de, "dread": dr, "dwrite": dw})
    v.cover(ex, st)

    def ret(s, r):
        check_inv(ex, s, lay, rid)
        check_inv(ex, s, lay, did, " of destination")
        ex.oblige(s, "returned count = min(count, size)", r == k, "postcondition")
        eqview(ex, s, rid, drop(v0, k), " (source)")
        eqview(ex, s, did, append(d0, k, v0.sel), " (destination)")
        heap_ok(ex, s, [storage(ex, s, rid), storage(ex, s, did)])
    ex.run(st, sig(M, "moveto"), [Ptr(rid), Ptr(did), n], ret)


def t_discard(v):
    ex, st, rid, v0, init = start(v, "discard")
    n = ex.fresh("count")
    k = z3.simplify(umin(n, v0.size))
    ex.small.insert(0, z3.ULE(n, bv(40)))
    cexf(ex, init, "discard", {"count": n})
    v.cover(ex, st)

    def ret(s, r):
        check_inv(ex, s, lay, rid)
        ex.oblige(s, "returned count = min(count, size)", r == k, "postcondition")
        got = eqview(ex, s, rid, drop(v0, k))
        ex.oblige(s, "capacity unchanged", got.cap == v0.cap, "postcondition")
        heap_ok(ex, s, [storage(ex, s, rid)])
    ex.run(st, sig(M, "discard"), [Ptr(rid), n], ret)


def t_resize(v):
    def go(inv):
        def body(v):
            ex, st, rid, v0, init = start(v, "resize", [], unroll=66)
            n = ex.fresh("need")
            st.assume(z3.ULE(n, bv(1 << 60)), z3.ULE(v0.cap, bv(1 << 60)))
            ex.small.insert(0, z3.ULE(n, bv(64)))
            ex.malloc_hook = lambda ex, st, n, I: ex.new_reg(st, "storage", "bytes", n)
            cexf(ex, init, "resize", {"count": n})
            if inv:
                ex.loop_specs.append((re.compile(r"^cyclone::RingBuf::resize"), None, PureLoop(
                    lambda p: z3.And(z3.ULE(bv(1), p[0]), z3.ULE(p[0], bv(1 << 61))), lambda p: ~p[0], "growth loop")))
            v.cover(ex, st)

            def ret(s, r):
                check_inv(ex, s, lay, rid)
                got = eqview(ex, s, rid, v0)
                ex.oblige(s, "capacity afterwards is at least the requested size", z3.UGE(got.cap, n), "postcondition")
                ex.oblige(s, "capacity never shrinks", z3.UGE(got.cap, v0.cap), "postcondition")
                heap_ok(ex, s, [storage(ex, s, rid)])
            ex.run(st, sig(M, "resize"), [Ptr(rid), n], ret)
        return body
    v.strategies(go(True), go(False))


def t_normalize(v):
    ex, st, rid, v0, init = start(v, "normalize")
    cexf(ex, init, "normalize", {"count": 0})
    ex.small = [z3.ULE(init["end"], bv(16))]
    v.cover(ex, st)

    def ret(s, r):
        check_inv(ex, s, lay, rid)
        got = eqview(ex, s, rid, v0)
        ex.oblige(s, "capacity unchanged", got.cap == v0.cap, "postcondition")
        p = storage(ex, s, rid)
        ex.oblige(s, "returned pointer lies in the storage", T if isinstance(r, Ptr) and r.r == p else F, "postcondition")
        if isinstance(r, Ptr) and r.r == p:
            o = b64(r.off)
            ex.oblige(s, "the whole content is contiguous from the returned pointer",
                      z3.And(z3.ULE(o, v0.cap + 1), z3.ULE(v0.size, v0.cap + 1 - o)), "postcondition")
            i = ex.fresh("i")
            ex.oblige(s, "bytes at the returned pointer are the content, in order",
                      z3.Implies(z3.ULT(i, v0.size), s.mem[p].content.sel(z3.simplify(o + i)) == v0.sel(i)), "postcondition")
        heap_ok(ex, s, [p])
    ex.run(st, sig(M, "normalize"), [Ptr(rid)], ret)


def t_simple(name, check, mut=False):
    def body(v):
        ex, st, rid, v0, init = start(v, name)
        cexf(ex, init, name, {"count": 0})
        v.cover(ex, st)

        def ret(s, r):
            check(ex, s, r, v0)
            check_inv(ex, s, lay, rid)
            if mut:
                eqview(ex, s, rid, View(bv(0), v0.sel))
                ex.oblige(s, "capacity unchanged", view(ex, s, lay, rid).cap == v0.cap, "postcondition")
            else: eqview(ex, s, rid, v0)
        ex.run(st, sig(M, name), [Ptr(rid)], ret)
    return body


def t_ctor(v):
    ex = v.exec(M, "RingBuf::RingBuf")
    libc.install(ex)
    st = State()
    o = ex.new_reg(st, "rb", "cells", lay.size)
    n = ex.fresh("capacity")
    st.assume(z3.ULT(n, bv(LIM)))
    ex.small = [z3.ULE(n, bv(16))]
    ex.cexfn = lambda s, m: {"op": "ctor", "count": m.eval(n, model_completion=True).as_long(), "end": 1, "read": 0, "write": 0}
    v.cover(ex, st)
    ex.malloc_hook = lambda ex, st, n, I: ex.new_reg(st, "storage", "bytes", n)

    def ret(s, r):
        check_inv(ex, s, lay, o.id)
        got = view(ex, s, lay, o.id)
        ex.oblige(s, "a new buffer is empty", got.size == 0, "postcondition")
        ex.oblige(s, "a new buffer has the requested capacity", got.cap == n, "postcondition")
    ex.run(st, "cyclone::RingBuf::RingBuf(unsigned long)", [Ptr(o.id), n], ret)


def t_dtor(v):
    ex, st, rid, v0, init = start(v, "~RingBuf")
    v.cover(ex, st)

    def ret(s, r):
        heap_ok(ex, s, [])
    ex.run(st, "cyclone::RingBuf::~RingBuf()", [Ptr(rid)], ret)


def has(name):
    return any(d.startswith(f"cyclone::RingBuf::{name}(") for d in M.bydem)


build_fn = build_


def tasks(tier):
    def p(name, term):
        def chk(ex, s, r, v0):
            w = term(v0)
            got = r if z3.is_bool(r) else r
            ex.oblige(s, f"{name}() reports exactly the abstract value", got == w, "postcondition")
        return chk
    ts = [("RingBuf::resize", t_resize), ("RingBuf::memcpy_into", t_memcpy_into), ("RingBuf::memcpy_out", t_memcpy_out),
          ("RingBuf::moveto", t_moveto), ("RingBuf::discard", t_discard), ("RingBuf::normalize", t_normalize),
          ("RingBuf::RingBuf", t_ctor), ("RingBuf::~RingBuf", t_dtor),
          ("RingBuf::size", t_simple("size", p("size", lambda v: v.size))),
          ("RingBuf::capacity", t_simple("capacity", p("capacity", lambda v: v.cap))),
          ("RingBuf::get_free_size", t_simple("get_free_size", p("get_free_size", lambda v: v.cap - v.size))),
          ("RingBuf::empty", t_simple("empty", p("empty", lambda v: v.size == 0))),
          ("RingBuf::full", t_simple("full", p("full", lambda v: v.size == v.cap))),
          ("RingBuf::reset", t_simple("reset", lambda ex, s, r, v0: None, True))]
    return ts


def build():    # noqa: F811  (driver entry point)
    build_fn()


def replay(failed, errors, seed, tier):
    return rbnative.replay(failed, errors, seed, rbnative.OPS01)


native_search = True
