"""C18  addresses round-trip, compare, order and hash consistently"""
import z3, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from . import osm
from .osm import find, snapshot, calls

M = L = None
TRUSTED = libc.TRUST_TEXT + osm.TRUST
ASSUMPTIONS = ["little-endian target (the shipped build is x86-64)"]
SRC = ["source/cyNetwork/network/cyn_address.cpp", "source/cyCore/core/cyc_socket_api.cpp"]
TEXT = """
#include <cy_core.h>
#include <cy_network.h>
using namespace cyclone;
extern "C" {
bool dv_eq(const Address& a, const Address& b) { return a == b; }
bool dv_lt(const Address& a, const Address& b) { return a < b; }
size_t dv_hash(const Address& a) { return std::hash<Address>()(a); }
}
"""
A = "cyclone::Address::"
FAM, PORT, ADDR = 0, 2, 4


def build():
    global M, L
    M, L = bld.module(SRC, text=TEXT)


def start(v, name):
    ex = v.exec(M, name)
    libc.install(ex)
    osm.install_sockets(ex)
    return ex, State()


def size(): return L.sizeof("Address")
def text_len(): return size() - 16 if L.off("Address", "m_address") == 0 else None


def new_obj(ex, st, name, const=False):
    """an address object with arbitrary content"""
    r = ex.new_reg(st, name, "cells", size())
    for k in range(size()): ex.store_cell(st, r.id, k, 1, ex.fresh(f"{name}.{k}", 8))
    st.wreg(r.id).const = const
    return r.id


def sa(ex, st, rid): return snapshot(ex, st, Ptr(rid, L.off("Address", "m_address", FIELDS)), 16)
FIELDS = ["m_address", "m_ip_string"]


def fam(x): return z3.Extract(15, 0, x)
def port(x): return z3.Extract(31, 16, x)
def addr(x): return z3.Extract(63, 32, x)
def pad(x): return z3.Extract(127, 64, x)
def swap16(x): return z3.Concat(z3.Extract(7, 0, x), z3.Extract(15, 8, x))


def text_is(ex, s, rid, val, what):
    """the stored text is the dotted text of val, terminated"""
    o = L.off("Address", "m_ip_string", FIELDS)
    n = ex.textlen(val)
    s.assume(z3.UGE(n, 7), z3.ULE(n, 15))
    g = []
    for k in range(16):
        b = ex.load(s, Ptr(rid, o + k), _IntTy(8))
        g.append(z3.Implies(z3.ULT(bv(k), n), b == ex.textchr(val, bv(k))))
        g.append(z3.Implies(n == k, b == 0))
    ex.oblige(s, f"{what}: the text is exactly the address's, terminated", z3.And(g), "postcondition")


def ctor(sig):
    c = [d for d in M.bydem if d == f"{A}Address({sig})"]
    if not c: raise bld.BuildError(f"no constructor Address({sig})")
    return c[0]


def holds(ex, s, rid, ip, p, what):
    x = sa(ex, s, rid)
    ex.oblige(s, f"{what}: IPv4 family", fam(x) == 2, "postcondition")
    ex.oblige(s, f"{what}: exactly the given port in network byte order", port(x) == swap16(p), "postcondition")
    ex.oblige(s, f"{what}: exactly the given address", addr(x) == ip, "postcondition")
    ex.oblige(s, f"{what}: the unused bytes are zero", pad(x) == 0, "postcondition")
    text_is(ex, s, rid, ip, what)

    def rp(t, r): ex.oblige(t, f"{what}: get_port reports the port given", r == p, "postcondition")
    ex.run(s.clone(), find(M, A + "get_port"), [Ptr(rid)], rp)


def t_port(v):
    ex, st = start(v, "Address(port, loopback)")
    rid, p, lo = new_obj(ex, st, "this"), ex.fresh("port", 16), ex.fresh("loopback", 1)
    v.cover(ex, st)
    ex.run(st, ctor("unsigned short, bool"), [Ptr(rid), p, lo],
           lambda s, r: holds(ex, s, rid, z3.If(lo, bv(0x0100007f, 32), bv(0, 32)), p, "Address(port)"))


def t_text(v):
    ex, st = start(v, "Address(ip, port)")
    rid, p = new_obj(ex, st, "this"), ex.fresh("port", 16)
    txt = ex.new_reg(st, "text", "bytes", bv(64))
    txt.const = True
    v.cover(ex, st)

    def ret(s, r):
        ex.oblige(s, "the given text is what is parsed", T if any(c[1].r == txt.id for c in calls(s, "inet_pton")) else F, "postcondition")
        ok, ip = s.ghost["text"]
        holds(ex, s, rid, z3.If(ok, ip, bv(0, 32)), p, "Address(ip, port)")
    ex.run(st, ctor("char const*, unsigned short"), [Ptr(rid), Ptr(txt.id), p], ret)


def t_sockaddr(v):
    ex, st = start(v, "Address(sockaddr_in)")
    rid = new_obj(ex, st, "this")
    a = ex.new_reg(st, "sockaddr", "cells", 16)
    for k in range(16): ex.store_cell(st, a.id, k, 1, ex.fresh(f"sa{k}", 8))
    x = snapshot(ex, st, Ptr(a.id), 16)
    v.cover(ex, st)

    def ret(s, r):
        ex.oblige(s, "holds exactly the given socket address", sa(ex, s, rid) == x, "postcondition")
        text_is(ex, s, rid, addr(x), "Address(sockaddr_in)")
    ex.run(st, ctor("sockaddr_in const&"), [Ptr(rid), Ptr(a.id)], ret)


def t_copy(v):
    for what, f in (("copy constructor", f"{A}Address(cyclone::Address const&)"), ("assignment", f"{A}operator=(cyclone::Address const&)")):
        ex, st = start(v, f"Address {what}")
        a, b = new_obj(ex, st, "this"), new_obj(ex, st, "other", True)
        v.cover(ex, st)

        def ret(s, r):
            ex.oblige(s, f"{what}: the copy equals the original", sa(ex, s, a) == sa(ex, s, b), "postcondition")
            o, n = L.off("Address", "m_ip_string", FIELDS), 16
            ex.oblige(s, f"{what}: the text is copied", snapshot(ex, s, Ptr(a, o), n) == snapshot(ex, s, Ptr(b, o), n), "postcondition")
            if r is not None: ex.oblige(s, f"{what}: returns the object", T if r.r == a else F, "postcondition")
        if f not in M.bydem: raise bld.BuildError(f"no {what}")
        ex.run(st, f, [Ptr(a), Ptr(b)], ret)
    # self assignment
    ex, st = start(v, "Address self assignment")
    a = new_obj(ex, st, "this")
    x0 = sa(ex, st, a)
    ex.check_overlap = False
    ex.on(r"^memcpy$", lambda e, s, ar, I: (e.memcpy(s, ar[0], ar[1], e.sz(ar[2]), I.line, move=True), ar[0])[1])
    ex.on(r"^llvm\.memcpy", lambda e, s, ar, I: (e.memcpy(s, ar[0], ar[1], e.sz(ar[2]), I.line, move=True), None)[1])
    ex.run(st, f"{A}operator=(cyclone::Address const&)", [Ptr(a), Ptr(a)], lambda s, r: ex.oblige(s, "self assignment keeps the value", sa(ex, s, a) == x0, "postcondition"))


def t_socket(v):
    ex, st = start(v, "Address(peer, socket)")
    rid, peer = new_obj(ex, st, "this"), ex.fresh("peer", 1)
    fd = osm.given_fd(ex, st, "s")
    v.cover(ex, st)

    def ret(s, r):
        c = calls(s, ("getpeername", "getsockname"))
        ex.oblige(s, "exactly one name is asked for, of the given socket", c[0][1] == fd if len(c) == 1 else F, "postcondition")
        if len(c) != 1: return
        ex.oblige(s, "the peer's or the local name as requested", peer == (T if c[0][0] == "getpeername" else F), "postcondition")
        x = sa(ex, s, rid)
        ex.oblige(s, "holds what the system reported, or the zero address", x == (c[0][2] if c[0][2] is not None else bv(0, 128)), "postcondition")
        text_is(ex, s, rid, addr(x), "Address(socket)")
    ex.run(st, ctor("bool, int"), [Ptr(rid), peer, fd], ret)


def t_default(v):
    ex, st = start(v, "Address()")
    rid = new_obj(ex, st, "this")
    v.cover(ex, st)

    def ret(s, r):
        ex.oblige(s, "the zero address", sa(ex, s, rid) == 0, "postcondition")
        ex.oblige(s, "empty text", ex.load(s, Ptr(rid, L.off("Address", "m_ip_string", FIELDS)), _IntTy(8)) == 0, "postcondition")
    ex.run(st, ctor(""), [Ptr(rid)], ret)


def t_getters(v):
    ex, st = start(v, "Address::get_ip/get_port/get_sockaddr_in")
    rid = new_obj(ex, st, "this", True)
    x = sa(ex, st, rid)
    v.cover(ex, st)
    ex.run(st.clone(), find(M, A + "get_port"), [Ptr(rid)], lambda s, r: ex.oblige(s, "get_port is the stored port in host order", r == swap16(port(x)), "postcondition"))
    ex.run(st.clone(), find(M, A + "get_ip"), [Ptr(rid)], lambda s, r: ex.oblige(s, "get_ip is the stored text", T if r.r == rid and is_c(r.off) and cval(r.off) == L.off("Address", "m_ip_string", FIELDS) else F, "postcondition"))


def summary(v, fn, n, width):
    """the function as a closed term over the n socket addresses it is given: [(path condition, result)]"""
    ex, st = start(v, fn)
    ids = [new_obj(ex, st, f"a{k}", True) for k in range(n)]
    xs = [sa(ex, st, i) for i in ids]
    out = []
    ex.run(st, fn, [Ptr(i) for i in ids], lambda s, r: out.append((z3.And(*s.pc) if s.pc else T, r)))
    vs = [z3.BitVec(f"addr{k}", 128) for k in range(n)]
    sub = []
    for x, vv, rid in zip(xs, vs, ids):
        for k in range(16): sub.append((ex.load(st, Ptr(rid, L.off("Address", "m_address", FIELDS) + k), _IntTy(8)), z3.Extract(8 * k + 7, 8 * k, vv)))
    e = F if width == 1 else bv(0, width)
    for c, r in out: e = z3.If(c, r, e)
    e = z3.substitute(e, *sub)
    ex.oblige(st, f"{fn} reads nothing but the two socket addresses" if n == 2 else f"{fn} reads nothing but the socket address",
              T if names(e) <= {str(x) for x in vs} else F, "frame")
    return (lambda *a: z3.substitute(e, *list(zip(vs, a)))), ex


def names(e):
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(str(x))
        st += x.children()
    return out


def t_laws(v):
    eq, ex = summary(v, "dv_eq", 2, 1)
    lt, _ = summary(v, "dv_lt", 2, 1)
    h, _ = summary(v, "dv_hash", 1, 64)
    a, b, c = z3.BitVecs("a b c", 128)
    st = State()

    def law(nm, g):
        ex.cexfn = lambda s, m: {k: hex(m.eval(x, model_completion=True).as_long()) for k, x in (("a", a), ("b", b), ("c", c))}
        ex.fnname, ex.use_lia = "operator== / operator< / hash", False
        ex.oblige(st.clone(), nm, g, "lemma")
    law("equality is exactly same address and same port", eq(a, b) == z3.And(addr(a) == addr(b), port(a) == port(b)))
    law("equality is reflexive", eq(a, a))
    law("equality is symmetric", z3.Implies(eq(a, b), eq(b, a)))
    law("equality is transitive", z3.Implies(z3.And(eq(a, b), eq(b, c)), eq(a, c)))
    law("the order is irreflexive", z3.Not(lt(a, a)))
    law("the order is asymmetric", z3.Not(z3.And(lt(a, b), lt(b, a))))
    law("the order is transitive", z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c)))
    law("the order is total and agrees with equality", z3.Xor(eq(a, b), z3.Or(lt(a, b), lt(b, a))))
    # equal means same address and port (first law), so b ranges over exactly the values below
    b2 = z3.Concat(pad(b), addr(a), port(a), fam(b))
    law("the rewriting below covers all equal pairs", z3.Implies(z3.And(addr(a) == addr(b), port(a) == port(b)), b == b2))
    law("equal addresses hash equally", h(a) == z3.simplify(h(b2)))


def tasks(tier):
    return [("Address(port, loopback)", t_port), ("Address(ip, port)", t_text), ("Address(sockaddr_in)", t_sockaddr), ("Address copy and assignment", t_copy),
            ("Address(peer, socket)", t_socket), ("Address()", t_default), ("Address getters", t_getters), ("comparison, order and hash laws", t_laws)]


def replay(failed, errors, seed, tier):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = bld.native("addr", os.path.join(root, "harness/address_harness.cpp"), SRC, flags=("-O1", "-g", "-fsanitize=address"))
    return nat.confirm(h, [], [], seed, 10)


native_search = True
