"""C06  packet framing consumes exactly one whole packet or nothing"""
import z3, os, re
from dv import build as bld, libc, nat
from dv.exec import *
from . import rb, iov
from .rb import Lay, view

M = L = rlay = lay = None
SRC = ["source/cyEvent/event/cye_packet.cpp", "source/cyEvent/event/cye_pipe.cpp", "source/cyCore/core/cyc_socket_api.cpp"] + rb.SRC
WRAP = """#include <cy_core.h>
#include <cy_event.h>
using namespace cyclone;
char* dv_buf(Packet& p) { return p.get_memory_buf(); }
const char* dv_cbuf(const Packet& p) { return p.get_memory_buf(); }
size_t dv_msize(const Packet& p) { return p.get_memory_size(); }
uint16_t dv_psize(const Packet& p) { return p.get_packet_size(); }
uint16_t dv_pid(const Packet& p) { return p.get_packet_id(); }
char* dv_content(Packet& p) { return p.get_packet_content(); }
const char* dv_ccontent(const Packet& p) { return p.get_packet_content(); }
"""
CLS = "cyclone::Packet"
F = ["m_head_size", "m_static_buf", "m_memory_buf", "m_memory_size", "m_packet_size", "m_packet_id", "m_content"]
TRUSTED = libc.TRUST_TEXT + iov.TRUST
ASSUMPTIONS = ["header sizes are between 4 (asserted in the code) and 2^32; payload parts do not overlap the packet's own storage",
               "a local payload of two parts is at most 65535 bytes in total (asserted in the code)",
               "contracts of RingBuf members at call sites are the ones discharged by checks C01 and C03"]


class PLay: pass


def build():
    global M, L, rlay, lay
    M, L = bld.module(SRC, text=WRAP)
    rlay = Lay(L)
    lay = PLay()
    for f in F: setattr(lay, f, L.off(CLS, f, F))
    lay.size = L.sizeof(CLS)
    o = sorted(getattr(lay, f) for f in F if f != "m_static_buf") + [lay.size]
    lay.nstatic = min(x for x in o if x > lay.m_static_buf) - lay.m_static_buf


def be16(sel, o): return z3.Concat(sel(bv(o)), sel(bv(o + 1)))


def sig(name):
    c = [d for d in M.bydem if d.startswith(name + "(") and M.has(M.bydem[d])]
    if len(c) != 1: raise bld.BuildError(f"{name}: {len(c)} definitions")
    return c[0]


def new_packet(ex, st, kind, name="pkt"):
    """kind: raw (uninitialised storage), empty, static, heap"""
    r = ex.new_reg(st, name, "cells", lay.size)
    s = ex.new_reg(st, name + ".static", "bytes", lay.nstatic)
    w = st.wreg(r.id)
    w.sub = [(lay.m_static_buf, lay.nstatic, s.id, 1)]
    if kind == "raw": return r.id
    P = lambda f, v: w.cells.__setitem__(getattr(lay, f), (v, 8))
    if kind == "empty":
        for f in F:
            if f != "m_static_buf": P(f, bv(0) if f in ("m_head_size", "m_memory_size") else NULL)
        return r.id
    head, n = ex.fresh(f"{name}.head"), ex.fresh(f"{name}.msize")
    st.assume(z3.ULE(bv(4), head), z3.ULE(head, bv(1 << 32)))
    if kind == "static": b = s.id
    else:
        h = ex.new_reg(st, name + ".heap", "bytes", n + 8)
        h.heap = True
        st.ghost["heap"] = st.ghost.get("heap", ()) + (h.id,)
        b = h.id
    psz = z3.ZeroExt(48, be16(st.mem[b].content.sel, 0))
    st.assume(n == head + psz, z3.ULE(n + 8, bv(lay.nstatic)) if kind == "static" else z3.UGT(n + 8, bv(lay.nstatic)))
    zero = ex.valid(st, psz == 0)
    empty_payload = ex.fresh(f"{name}.nopayload", 1)
    P("m_head_size", head); P("m_memory_size", n)
    P("m_memory_buf", Ptr(b, 0)); P("m_packet_size", Ptr(b, 0)); P("m_packet_id", Ptr(b, 2))
    # m_content is null exactly when there is no payload: both cases are explored by two start states
    P("m_content", Ptr(b, head) if not name.endswith("0") else NULL)
    st.assume((psz == 0) if name.endswith("0") else (psz != 0))
    return r.id


def fld(ex, st, rid, f, ptr=False): return ex.load_cell(st, rid, getattr(lay, f), 8, PtrTy() if ptr else IntTy(64))


def check_clean(ex, st, rid):
    ok = all(is_null(fld(ex, st, rid, f, True)) for f in ("m_memory_buf", "m_packet_size", "m_packet_id", "m_content"))
    ex.oblige(st, "the packet is empty", z3.And(z3.BoolVal(ok), fld(ex, st, rid, "m_memory_size") == 0), "postcondition")


def heap_ok(ex, st, allowed):
    left = [h for h in st.ghost.get("heap", ()) if h not in allowed]
    ex.oblige(st, "no storage is leaked", z3.BoolVal(not left), "memory")


def packet_mem(ex, st, rid, head, psize):
    """checks the representation and returns the byte selector of the packet's memory"""
    b = fld(ex, st, rid, "m_memory_buf", True)
    ok = b.r != 0 and st.mem[b.r].alive and b.off == 0 and st.mem[b.r].kind == "bytes"
    ex.oblige(st, "the packet owns live storage", z3.BoolVal(bool(ok)), "postcondition")
    if not ok: raise PathEnd()
    n = fld(ex, st, rid, "m_memory_size")
    ex.oblige(st, "memory size = header + payload size", n == head + psize, "postcondition")
    ex.oblige(st, "the storage holds the whole packet", z3.ULE(n, b64(st.mem[b.r].size)), "postcondition")
    ex.oblige(st, "remembered header size", fld(ex, st, rid, "m_head_size") == head, "postcondition")
    for f, o in (("m_packet_size", 0), ("m_packet_id", 2)):
        p = fld(ex, st, rid, f, True)
        ex.oblige(st, f"{f[2:]} refers to the header field", z3.BoolVal(p.r == b.r and isinstance(p.off, int) and p.off == o), "postcondition")
    c = fld(ex, st, rid, "m_content", True)
    if c.r == 0: ex.oblige(st, "no payload pointer only for an empty payload", z3.And(z3.BoolVal(is_null(c)), psize == 0), "postcondition")
    else: ex.oblige(st, "the payload pointer refers to the payload", z3.And(z3.BoolVal(c.r == b.r), b64(c.off) == head, psize != 0), "postcondition")
    cont = st.mem[b.r].content
    heap_ok(ex, st, [b.r])
    return lambda i: cont.sel(b64(i))


KINDS = [("empty", "pkt"), ("static", "pkt"), ("static", "pkt0"), ("heap", "pkt"), ("heap", "pkt0")]


def exec_(v, name):
    ex = v.exec(M, name, max_unroll=8)
    libc.install(ex)
    # std::numeric_limits etc. are inlined from source
    return ex


def each(f):
    def body(v):
        for kind, nm in KINDS: f(v, kind, nm)
    return body


def t_ctor(v):
    ex = exec_(v, "Packet::Packet")
    st = State()
    rid = new_packet(ex, st, "raw")
    v.cover(ex, st)
    ex.run(st, sig("cyclone::Packet::Packet"), [Ptr(rid)], lambda s, r: check_clean(ex, s, rid))


def t_clean(v, kind, nm):
    for fn in ("cyclone::Packet::clean", "cyclone::Packet::~Packet"):
        ex = exec_(v, fn[9:] + f" ({kind})")
        st = State()
        rid = new_packet(ex, st, kind, nm)
        v.cover(ex, st)

        def ret(s, r):
            check_clean(ex, s, rid)
            heap_ok(ex, s, [])
        ex.run(st, sig(fn), [Ptr(rid)], ret)


def small(ex, *ts):
    ex.small = [z3.And([z3.ULE(t, bv(x)) for t in ts]) for x in (4096, 64)]


def head_arg(ex, st):
    h = ex.fresh("head_size")
    st.assume(z3.ULE(bv(4), h), z3.ULE(h, bv(1 << 32)))
    return h


def t_memory(v, kind, nm):
    for n1 in (0, 1):
        for n2 in (0, 1):
            ex = exec_(v, f"Packet::build_from_memory ({kind})")
            st = State()
            rid = new_packet(ex, st, kind, nm)
            head, pid, s1, s2 = head_arg(ex, st), ex.fresh("id", 16), ex.fresh("size1", 16), ex.fresh("size2", 16)
            z = lambda x: z3.ZeroExt(48, x)
            st.assume(z3.ULE(z(s1) + z(s2), bv(65535)))
            p1 = NULL if n1 else Ptr(ex.new_reg(st, "part1", "bytes", z(s1)).id, 0)
            p2 = NULL if n2 else Ptr(ex.new_reg(st, "part2", "bytes", z(s2)).id, 0)
            c1 = None if n1 else st.mem[p1.r].content
            c2 = None if n2 else st.mem[p2.r].content
            small(ex, head)
            ex.cexfn = lambda s, m: {"op": "memory", "head": m.eval(head).as_long(), "n1": m.eval(s1, True).as_long(), "n2": m.eval(s2, True).as_long()}
            v.cover(ex, st)

            def ret(s, r):
                tot = z(s1) + z(s2)
                mem = packet_mem(ex, s, rid, head, tot)
                ex.oblige(s, "the size field holds the payload size, big endian", z(be16(mem, 0)) == tot, "postcondition")
                ex.oblige(s, "the id field holds the id, big endian", be16(mem, 2) == pid, "postcondition")
                i = ex.fresh("i")
                if c1: ex.oblige(s, "payload part 1 is exact", z3.Implies(z3.ULT(i, z(s1)), mem(head + i) == c1.sel(i)), "postcondition")
                if c2: ex.oblige(s, "payload part 2 follows part 1 exactly", z3.Implies(z3.ULT(i, z(s2)), mem(head + z(s1) + i) == c2.sel(i)), "postcondition")
            ex.run(st, sig("cyclone::Packet::build_from_memory"), [Ptr(rid), head, pid, s1, p1, s2, p2], ret)


def t_ring(v, kind, nm):
    ex = exec_(v, f"Packet::build_from_ringbuf ({kind})")
    rb.install(ex, rlay, ["peek", "memcpy_out", "size", "discard", "empty"])
    st = State()
    rid = new_packet(ex, st, kind, nm)
    q = rb.make(ex, st, rlay)
    v0 = view(ex, st, rlay, q)
    st.assume(z3.ULE(v0.cap, bv(1 << 60)))
    head = head_arg(ex, st)
    psz = z3.ZeroExt(48, be16(v0.sel, 0))
    small(ex, head, v0.cap)
    ex.cexfn = lambda s, m: {"op": "ring", "head": m.eval(head).as_long()}
    v.cover(ex, st)
    whole = z3.And(z3.UGE(v0.size, bv(2)), z3.UGE(v0.size, head + psz))

    def ret(s, r):
        got = view(ex, s, rlay, q)
        i = ex.fresh("i")
        ex.oblige(s, "succeeds exactly when a whole packet is available", r == whole, "postcondition")
        n = z3.If(whole, head + psz, bv(0))
        ex.oblige(s, "consumes exactly the packet, or nothing", got.size == v0.size - n, "postcondition")
        ex.oblige(s, "the rest of the stream is unchanged", z3.Implies(z3.ULT(i, v0.size - n), got.sel(i) == v0.sel(i + n)), "postcondition")
        own = [rb.fields(ex, s, rlay, q)[0].r]
        s.ghost["heap"] = tuple(x for x in s.ghost.get("heap", ()) if x not in own)
        if ex.feasible(s, r):
            t = s.clone()
            t.assume(r)
            mem = packet_mem(ex, t, rid, head, psz)
            ex.oblige(t, "every byte of the packet is the stream's byte", z3.Implies(z3.ULT(i, head + psz), mem(i) == v0.sel(i)), "postcondition")
            ex.oblige(t, "its size field denotes its payload size", z3.ZeroExt(48, be16(mem, 0)) == psz, "postcondition")
        if ex.feasible(s, z3.Not(r)):
            t = s.clone()
            t.assume(z3.Not(r))
            check_clean(ex, t, rid)
            heap_ok(ex, t, [])
    ex.run(st, sig("cyclone::Packet::build_from_ringbuf"), [Ptr(rid), head, Ptr(q)], ret)


def t_pipe(v, kind, nm):
    ex = exec_(v, f"Packet::build_from_pipe ({kind})")
    st = State()
    rid = new_packet(ex, st, kind, nm)
    head = head_arg(ex, st)
    pl = L.off("cyclone::Pipe", "m_pipe_fd", ["m_pipe_fd"])
    pipe = ex.new_reg(st, "pipe", "cells", L.sizeof("cyclone::Pipe"))
    fd = ex.load_cell(st, pipe.id, pl, 4, IntTy(32))
    K = z3.Function("piped", z3.BitVecSort(64), z3.BitVecSort(8))
    avail = ex.fresh("available")
    st.assume(z3.ULE(avail, bv(1 << 40)))
    st.ghost["pos"], st.ghost["err"] = bv(0), z3.BoolVal(False)
    small(ex, head, avail)
    ex.cexfn = lambda s, m: {"op": "pipe", "head": m.eval(head).as_long()}
    psz = z3.ZeroExt(48, z3.Concat(K(bv(0)), K(bv(1))))

    def read(ex, st, a, I):
        ex.oblige(st, "reads from the pipe's read end", a[0] == fd, "callee precondition", I.line)
        pos = st.ghost["pos"]
        tot, r = iov.read_into(ex, st, [(a[1], a[2])], lambda i: K(pos + i), I.line)
        left = avail - pos
        st.assume(z3.Implies(r != bv(-1), r == z3.If(z3.ULE(a[2], left), a[2], left)))
        st.ghost["pos"] = z3.simplify(z3.If(r == bv(-1), pos, pos + r))
        st.ghost["err"] = z3.simplify(z3.Or(st.ghost["err"], r == bv(-1)))
        # a packet never takes more than itself from the pipe
        ex.oblige(st, "never consumes more than the next packet", z3.ULE(st.ghost["pos"], head + psz), "postcondition", I.line)
        return r
    read.label = "read"
    ex.on(r"^read$", read)
    v.cover(ex, st)

    def ret(s, r):
        i = ex.fresh("i")
        pos, err = s.ghost["pos"], s.ghost["err"]
        ex.oblige(s, "succeeds only when the whole packet was read", z3.Implies(r, z3.And(z3.UGE(avail, head + psz), pos == head + psz)), "postcondition")
        ex.oblige(s, "succeeds when the whole packet is available and no read fails", z3.Implies(z3.And(z3.Not(err), z3.UGE(avail, head + psz)), r), "postcondition")
        if ex.feasible(s, r):
            t = s.clone()
            t.assume(r)
            mem = packet_mem(ex, t, rid, head, psz)
            ex.oblige(t, "every byte of the packet is the pipe's byte", z3.Implies(z3.ULT(i, head + psz), mem(i) == K(i)), "postcondition")
        if ex.feasible(s, z3.Not(r)):
            t = s.clone()
            t.assume(z3.Not(r))
            check_clean(ex, t, rid)
            heap_ok(ex, t, [])
    ex.run(st, sig("cyclone::Packet::build_from_pipe"), [Ptr(rid), head, Ptr(pipe.id)], ret)


def t_alloc(v):
    for kind, nm in [("null", "")] + KINDS:
        ex = exec_(v, f"Packet::alloc_packet ({kind})")

        def hook(ex, st, n, I):
            if not isinstance(n, int): return None
            if n != lay.size: return ex.new_reg(st, f"heap{I.line}", "bytes", n)
            rid = new_packet(ex, st, "raw", "copy")
            return st.mem[rid]
        ex.malloc_hook = hook
        st = State()
        oid = new_packet(ex, st, kind, nm) if kind != "null" else None
        keep = st.ghost.get("heap", ())
        v.cover(ex, st)

        def ret(s, r):
            ex.oblige(s, "a packet is returned", z3.BoolVal(r.r != 0 and r.off == 0), "postcondition")
            h = s.ghost.get("heap", ())
            s.ghost["heap"] = tuple(x for x in h if x != r.r and x not in keep)
            if kind in ("null", "empty"):
                check_clean(ex, s, r.r)
                heap_ok(ex, s, [])
                return
            head = fld(ex, s, oid, "m_head_size")
            n = fld(ex, s, oid, "m_memory_size")
            ob = fld(ex, s, oid, "m_memory_buf", True)
            oc = s.mem[ob.r].content
            mem = packet_mem(ex, s, r.r, head, n - head)
            ex.oblige(s, "the copy has its own storage", z3.BoolVal(fld(ex, s, r.r, "m_memory_buf", True).r != ob.r), "postcondition")
            i = ex.fresh("i")
            ex.oblige(s, "the copy's bytes equal the original's", z3.Implies(z3.ULT(i, n), mem(i) == oc.sel(i)), "postcondition")
        ex.run(st, sig("cyclone::Packet::alloc_packet"), [Ptr(oid) if oid else NULL], ret)


def t_get(v, kind, nm):
    for fn in ("dv_buf", "dv_cbuf", "dv_msize", "dv_psize", "dv_pid", "dv_content", "dv_ccontent"):
        ex = exec_(v, f"Packet getter {fn[3:]} ({kind})")
        st = State()
        rid = new_packet(ex, st, kind, nm)
        b, c = fld(ex, st, rid, "m_memory_buf", True), fld(ex, st, rid, "m_content", True)
        n = fld(ex, st, rid, "m_memory_size")
        v.cover(ex, st)

        def ret(s, r):
            eqp = lambda x, y: z3.And(z3.BoolVal(x.r == y.r), b64(x.off) == b64(y.off))
            if fn in ("dv_buf", "dv_cbuf"): g = eqp(r, b)
            elif fn in ("dv_content", "dv_ccontent"): g = eqp(r, c)
            elif fn == "dv_msize": g = r == n
            elif kind == "empty": g = r == 0
            else: g = r == be16(s.mem[b.r].content.sel, 0 if fn == "dv_psize" else 2)
            ex.oblige(s, f"{fn[3:]} is reported exactly", g, "postcondition")
        ex.run(st, sig(fn), [Ptr(rid)], ret)


def t_roundtrip(v):
    """encode, put on a stream, decode: same id, size and payload (composition of the two functions, on the real bodies)"""
    ex = exec_(v, "decode(encode(packet))")
    rb.install(ex, rlay, ["peek", "memcpy_out", "size", "discard", "empty"])
    st = State()
    a, b = new_packet(ex, st, "empty", "sent"), new_packet(ex, st, "empty", "received")
    head, pid, s1 = head_arg(ex, st), ex.fresh("id", 16), ex.fresh("size", 16)
    z = z3.ZeroExt(48, s1)
    src = ex.new_reg(st, "payload", "bytes", z)
    sc = src.content
    v.cover(ex, st)

    def sent(s, r):
        mb = fld(ex, s, a, "m_memory_buf", True)
        n = fld(ex, s, a, "m_memory_size")
        wire = s.mem[mb.r].content
        q = rb.make(ex, s, rlay)
        tail = ex.fresh("bytes_behind")
        s.assume(z3.ULE(tail, bv(1 << 40)))
        U = z3.Function("behind", z3.BitVecSort(64), z3.BitVecSort(8))
        rb.concretise(ex, s, rlay, q, z3.simplify(n + tail), lambda i: z3.If(z3.ULT(i, n), wire.sel(i), U(i)))

        def got(t, r):
            ex.oblige(t, "the decoder accepts the encoded packet", r, "postcondition")
            bb = fld(ex, t, b, "m_memory_buf", True)
            if bb.r == 0: return
            mem = t.mem[bb.r].content.sel
            ex.oblige(t, "same id", be16(mem, 2) == pid, "postcondition")
            ex.oblige(t, "same size", be16(mem, 0) == s1, "postcondition")
            i = ex.fresh("i")
            ex.oblige(t, "same payload", z3.Implies(z3.ULT(i, z), mem(head + i) == sc.sel(i)), "postcondition")
            ex.oblige(t, "only the packet is consumed", view(ex, t, rlay, q).size == tail, "postcondition")
        ex.run(s, sig("cyclone::Packet::build_from_ringbuf"), [Ptr(b), head, Ptr(q)], got)
    ex.run(st, sig("cyclone::Packet::build_from_memory"), [Ptr(a), head, pid, s1, Ptr(src.id), bv(0, 16), NULL], sent)


def tasks(tier):
    return [("Packet::Packet", t_ctor), ("Packet::clean/~Packet", each(t_clean)), ("Packet::build_from_memory", each(t_memory)),
            ("Packet::build_from_ringbuf", each(t_ring)), ("Packet::build_from_pipe", each(t_pipe)), ("Packet::alloc_packet", t_alloc),
            ("Packet getters", each(t_get)), ("decode(encode(packet))", t_roundtrip)]


def replay(failed, errors, seed, tier):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = bld.native("pkt", os.path.join(root, "harness/packet_harness.cpp"), SRC + ["source/cyCore/core/cyc_logger.cpp", "source/cyCore/core/cyc_system_api.cpp"], flags=nat.ASAN)
    return nat.confirm(h, [], [], seed, 15)


native_search = True
