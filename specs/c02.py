"""C02  ring buffer socket transfer moves exactly the bytes the kernel moved"""
import z3
from dv import build as bld, libc
from dv.exec import *
from . import rb, rbnative, iov
from .rb import *
from .c01 import heap_ok, storage, has

M = L = lay = None
TRUSTED = libc.TRUST_TEXT + iov.TRUST
ASSUMPTIONS = ["capacities are at most 2^60 bytes", "contracts of RingBuf::memcpy_into/resize at call sites are the ones discharged by check C01",
               "write_socket is called on a non-empty buffer (asserted in the code)"]


def build():
    global M, L, lay
    M, L = bld.module(rb.SRC, text=rb.WRAP)
    lay = Lay(L)
    from . import c01
    c01.M, c01.L, c01.lay = M, L, lay


def start(v, fname, use):
    ex = v.exec(M, f"RingBuf::{fname}", max_unroll=8)
    libc.install(ex)
    rb.install(ex, lay, use)
    st = State()
    rid = make(ex, st, lay)
    p, e, r, w = fields(ex, st, lay, rid)
    init = dict(end=e, read=r, write=w, content=st.mem[p.r].content)
    v0 = view(ex, st, lay, rid)
    st.assume(z3.ULE(v0.cap, bv(1 << 60)))
    ex.small = [z3.ULE(e, bv(16))]
    return ex, st, rid, v0, init


def post(ex, s, rid, want, tag=""):
    got = view(ex, s, lay, rid)
    ex.oblige(s, f"size of the content afterwards is exact{tag}", got.size == want.size, "postcondition")
    i = ex.fresh("i")
    ex.oblige(s, f"every byte of the content afterwards is exact{tag}", z3.Implies(z3.ULT(i, want.size), got.sel(i) == want.sel(i)), "postcondition")
    return got


def t_read(v):
    ex, st, rid, v0, init = start(v, "read_socket", ["memcpy_into"])
    fd, extra = ex.fresh("fd", 32), ex.fresh("extra", 1)
    K = z3.Function("incoming", z3.BitVecSort(64), z3.BitVecSort(8))
    last = {}

    def readv(ex, st, a, I):
        ex.oblige(st, "reads from the given descriptor", a[0] == fd, "callee precondition", I.line)
        ex.oblige(st, "the kernel is asked exactly once", T if "rd" not in st.ghost else F, "postcondition", I.line)
        parts = iov.iovecs(ex, st, a[1], a[2], I)
        tot, r = iov.read_into(ex, st, parts, lambda i: K(i), I.line)
        room = z3.simplify(v0.cap - v0.size)
        ex.oblige(st, "the whole free space is offered", z3.UGE(tot, room), "callee precondition", I.line)
        ex.oblige(st, "with extra room requested, more than zero bytes are offered", z3.Implies(extra, tot != 0), "callee precondition", I.line)
        ex.oblige(st, "without extra room requested, exactly the free space is offered", z3.Implies(z3.Not(extra), tot == room), "callee precondition", I.line)
        st.ghost["rd"] = r
        last["r"] = r
        return r
    readv.label = "readv"
    ex.on(r"^readv$", readv)
    f = rb_cex(ex, lay, init, {"a": z3.If(extra, bv(1), bv(0))})

    def cex(s, m):
        d = f(s, m)
        d["op"] = "rsock"
        d["count"] = m.eval(s.ghost.get("rd", bv(1)), model_completion=True).as_signed_long()
        return d
    ex.cexfn = cex
    v.cover(ex, st)

    def ret(s, r):
        rd = s.ghost.get("rd")
        if rd is None:
            ex.oblige(s, "returning without a kernel read only when no space may be used", z3.And(z3.Not(extra), v0.cap == v0.size), "postcondition")
            post(ex, s, rid, v0)
            return
        ex.oblige(s, "the kernel's result is returned unchanged", r == rd, "postcondition")
        check_inv(ex, s, lay, rid)
        n = z3.If(rd == bv(-1), bv(0), rd)
        got = post(ex, s, rid, append(v0, n, lambda i: K(i)))
        ex.oblige(s, "capacity never shrinks", z3.UGE(got.cap, v0.cap), "postcondition")
        heap_ok(ex, s, [storage(ex, s, rid)])
    ex.run(st, sig(M, "read_socket"), [Ptr(rid), fd, extra], ret)


def t_write(v):
    ex, st, rid, v0, init = start(v, "write_socket", [])
    fd = ex.fresh("fd", 32)
    st.assume(v0.size != 0)

    def writev(ex, st, a, I):
        ex.oblige(st, "writes to the given descriptor", a[0] == fd, "callee precondition", I.line)
        ex.oblige(st, "the kernel is asked exactly once", T if "wr" not in st.ghost else F, "postcondition", I.line)
        parts = iov.iovecs(ex, st, a[1], a[2], I)
        tot, sel = iov.gather(ex, st, parts, I.line)
        ex.oblige(st, "exactly the buffered bytes are offered: count", tot == v0.size, "callee precondition", I.line)
        i = ex.fresh("i")
        ex.oblige(st, "exactly the buffered bytes are offered, in order", z3.Implies(z3.ULT(i, v0.size), sel(i) == v0.sel(i)), "callee precondition", I.line)
        r = ex.fresh("write_ret")
        st.assume(z3.Or(r == bv(-1), z3.ULE(r, tot)))
        st.ghost["wr"] = r
        return r
    writev.label = "writev"
    ex.on(r"^writev$", writev)
    f = rb_cex(ex, lay, init, {})

    def cex(s, m):
        d = f(s, m)
        d["op"] = "wsock"
        d["count"] = m.eval(s.ghost.get("wr", bv(1)), model_completion=True).as_signed_long()
        return d
    ex.cexfn = cex
    v.cover(ex, st)

    def ret(s, r):
        wr = s.ghost.get("wr")
        ex.oblige(s, "a write was made", T if wr is not None else F, "postcondition")
        if wr is None: return
        ex.oblige(s, "the kernel's result is returned unchanged", r == wr, "postcondition")
        check_inv(ex, s, lay, rid)
        n = z3.If(wr == bv(-1), bv(0), wr)
        got = post(ex, s, rid, drop(v0, n))
        ex.oblige(s, "capacity unchanged", got.cap == v0.cap, "postcondition")
        heap_ok(ex, s, [storage(ex, s, rid)])
    ex.run(st, sig(M, "write_socket"), [Ptr(rid), fd], ret)


def tasks(tier):
    from . import c01
    # memcpy_into and resize are re-verified here, so that this check stands on its own
    return [("RingBuf::read_socket", t_read), ("RingBuf::write_socket", t_write),
            ("RingBuf::memcpy_into", c01.t_memcpy_into), ("RingBuf::resize", c01.t_resize)]


def replay(failed, errors, seed, tier):
    return rbnative.replay(failed, errors, seed, ["rsock", "wsock"])


native_search = True
