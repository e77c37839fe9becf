"""C03  ring buffer search, peek and checksum report exactly the stored bytes"""
import z3
from dv import build as bld, libc
from dv.exec import *
from . import rb, rbnative
from .rb import *

M = L = lay = None
TRUSTED = libc.TRUST_TEXT
ASSUMPTIONS = ["capacities are at most 2^61 bytes (offsets and counts are arbitrary 64-bit values)",
               "adler32 is used through its contract (running checksum over consecutive pieces), which check C07 discharges"]


def build():
    global M, L, lay
    M, L = bld.module(rb.SRC, text=rb.WRAP)
    lay = Lay(L)


def start(v, fname):
    ex = v.exec(M, f"RingBuf::{fname}", max_unroll=8)
    libc.install(ex)
    st = State()
    rid = make(ex, st, lay)
    p, e, r, w = fields(ex, st, lay, rid)
    st.wreg(p.r).const = True          # queries change nothing
    init = dict(end=e, read=r, write=w, content=st.mem[p.r].content)
    v0 = view(ex, st, lay, rid)
    ex.small = [z3.ULE(e, bv(12))]
    return ex, st, rid, v0, init, p.r


def frame(ex, s, rid, v0, init):
    p, e, r, w = fields(ex, s, lay, rid)
    ex.oblige(s, "the buffer's indices and capacity are unchanged", z3.And(e == init["end"], r == init["read"], w == init["write"]), "frame")
    ex.oblige(s, "the stored bytes are unchanged", T if s.mem[p.r].content is init["content"] else F, "frame")


def cexf(ex, init, op, args):
    f = rb_cex(ex, lay, init, args)

    def g(s, m):
        d = f(s, m)
        d["op"] = op
        d.setdefault("count", 0)
        return d
    ex.cexfn = g


def t_search(v):
    ex, st, rid, v0, init, b = start(v, "search")
    off, c = ex.fresh("off"), ex.fresh("byte", 8)
    cexf(ex, init, "search", {"off": off, "byte": c})
    ex.small.insert(0, z3.ULE(off, bv(16)))
    v.cover(ex, st)

    def ret(s, r):
        i = ex.fresh("i")
        hit = r != bv(-1)
        ex.oblige(s, "a reported position lies in the searched range", z3.Implies(hit, z3.And(z3.UGE(r, off), z3.ULT(r, v0.size))), "postcondition")
        ex.oblige(s, "the byte at the reported position is the searched byte", z3.Implies(hit, v0.sel(r) == c), "postcondition")
        ex.oblige(s, "no earlier byte of the range matches", z3.Implies(z3.And(hit, z3.UGE(i, off), z3.ULT(i, r)), v0.sel(i) != c), "postcondition")
        ex.oblige(s, "-1 is reported only when no byte of the range matches",
                  z3.Implies(z3.And(z3.Not(hit), z3.UGE(i, off), z3.ULT(i, v0.size)), v0.sel(i) != c), "postcondition")
        frame(ex, s, rid, v0, init)
    ex.run(st, sig(M, "search"), [Ptr(rid), off, c], ret)


def t_peek(null):
    def body(v):
        ex, st, rid, v0, init, b = start(v, "peek" + (" (no destination)" if null else ""))
        off, n = ex.fresh("off"), ex.fresh("count")
        k = z3.simplify(z3.If(z3.UGT(off, v0.size), bv(0), umin(n, v0.size - off)))
        dst = None
        if not null: dst = ex.new_reg(st, "dst", "bytes", k)
        cexf(ex, init, "peek", {"off": off, "count": n})
        ex.small[:0] = [z3.ULE(off, bv(16)), z3.ULE(n, bv(16))]
        v.cover(ex, st)

        def ret(s, r):
            if null: ex.oblige(s, "0 is returned when no destination is given", r == 0, "postcondition")
            else:
                ex.oblige(s, "returned count = min(count, size - offset), 0 past the end", r == k, "postcondition")
                i = ex.fresh("i")
                ex.oblige(s, "the copied bytes are the stored bytes from the offset on",
                          z3.Implies(z3.ULT(i, k), s.mem[dst.id].content.sel(i) == v0.sel(z3.simplify(off + i))), "postcondition")
            frame(ex, s, rid, v0, init)
        ex.run(st, sig(M, "peek"), [Ptr(rid), off, NULL if null else Ptr(dst.id), n], ret)
    return body


def t_sum(v):
    ex, st, rid, v0, init, b = start(v, "checksum")
    off, n = ex.fresh("off"), ex.fresh("count")
    cexf(ex, init, "sum", {"off": off, "count": n})
    ex.small[:0] = [z3.ULE(off, bv(16)), z3.ULE(n, bv(16))]
    inr = z3.And(z3.ULE(off, v0.size), z3.ULE(n, v0.size - off), n != 0)
    st.ghost["run"] = (bv(1, 32), bv(0))          # (running value, bytes covered)
    v.cover(ex, st)

    def adler32(ex, st, a, I):
        cur, done = st.ghost["run"]
        ex.oblige(st, "each piece continues from the previous running value", a[0] == cur, "callee precondition", I.line)
        need_range(ex, st, a[1], a[2], I, False, "checksummed piece")
        src = ptr_bytes(ex, st, a[1])
        i = ex.fresh("i")
        ex.oblige(st, "each piece is the next stored bytes of the range",
                  z3.Implies(z3.ULT(i, a[2]), src(i) == v0.sel(z3.simplify(off + done + i))), "callee precondition", I.line)
        ex.oblige(st, "each piece stays inside the content", z3.And(z3.ULE(a[2], v0.size), z3.ULE(off + done, v0.size - a[2])), "callee precondition", I.line)
        r = ex.fresh("adler", 32)
        st.ghost["run"] = (r, z3.simplify(done + a[2]))
        return r
    adler32.label = "contract adler32"
    ex.on(r"^cyclone::adler32\(", adler32)

    def ret(s, r):
        cur, done = s.ghost["run"]
        ex.oblige(s, "empty or out-of-range: the initial value is returned", z3.Implies(z3.Not(inr), r == 1), "postcondition")
        ex.oblige(s, "in range: exactly the bytes of the range were checksummed", z3.Implies(inr, done == n), "postcondition")
        ex.oblige(s, "in range: the running checksum is returned", z3.Implies(inr, r == cur), "postcondition")
        frame(ex, s, rid, v0, init)
    ex.run(st, sig(M, "checksum"), [Ptr(rid), off, n], ret)


def tasks(tier):
    return [("RingBuf::search", t_search), ("RingBuf::peek", t_peek(False)), ("RingBuf::peek (no destination)", t_peek(True)),
            ("RingBuf::checksum", t_sum)]


def replay(failed, errors, seed, tier):
    return rbnative.replay(failed, errors, seed, ["search", "peek", "sum"])


native_search = True
