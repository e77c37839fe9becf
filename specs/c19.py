"""C19  SOCKS5 parsing never over-reads and answers per RFC 1928"""
import z3, os, re
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from dv.loops import Houdini, Scan
from . import osm, rb, c18
from .osm import find, snapshot, calls, rec
from .rb import Lay, view

M = L = rlay = None
SRC = ["samples/socks5/s5_protocol.cpp", "source/cyNetwork/network/cyn_address.cpp", "source/cyCore/core/cyc_socket_api.cpp"] + rb.SRC
TRUSTED = libc.TRUST_TEXT + osm.TRUST + ["getaddrinfo: returns 0 and a list of results, or an error; an empty name does not resolve (glibc: EAI_NONAME)", "std::string assignment from a C string copies exactly its characters"]
ASSUMPTIONS = ["RingBuf members at call sites through the contracts discharged by C01 and C03", "resolve_hostname's result list is explored up to 3 entries (bounded); the parsers themselves have no bound",
               "bytes after a request are treated as a protocol error (what the shipped parser does) or must be left in the buffer"]
SUCCESS, MORE = 0, -1
A = "cyclone::Address::"


def build():
    global M, L, rlay
    M, L = bld.module(SRC, extra=["samples/socks5"])
    rlay = Lay(L)
    c18.M, c18.L = M, L


def setup(v, name, names=()):
    ex = v.exec(M, name, max_unroll=300)
    libc.install(ex)
    osm.install_sockets(ex)
    rb.install(ex, rlay, rb.ALL)
    return ex, State()


def content_unchanged(ex, s, rid, v0, what):
    got = view(ex, s, rlay, rid)
    i = ex.fresh("i")
    ex.oblige(s, f"{what}: nothing is consumed", z3.And(got.size == v0.size, z3.Implies(z3.ULT(i, v0.size), got.sel(i) == v0.sel(i))), "postcondition")


def consumed(ex, s, rid, v0, n, what):
    got = view(ex, s, rlay, rid)
    i = ex.fresh("i")
    ex.oblige(s, f"{what}: exactly one request is consumed", z3.And(z3.ULE(n, v0.size), got.size == v0.size - n, z3.Implies(z3.ULT(i, got.size), got.sel(i) == v0.sel(z3.simplify(n + i)))), "postcondition")


def cexer(ex, op, v0, st0, rid, extra=None):
    def f(s, m):
        n = m.eval(v0.size, model_completion=True).as_long()
        if n > 600: return None
        d = {"op": op, "data": [m.eval(v0.sel(bv(i)), model_completion=True).as_long() for i in range(n)]}
        return d
    ex.cexfn = f


def t_handshake(v):
    cell = {}

    def gen(ex, st, hdr, phis):
        v0 = cell["v0"]
        n = v0.size
        fname = v0.sel(bv(0)).decl().name()
        for I in phis:
            if not z3.is_bv(phis[I]) or phis[I].size() > 64: continue
            w = phis[I].size()
            x = lambda e, I=I, w=w: z3.ZeroExt(64 - w, e[I]) if w < 64 else e[I]
            nm = z3.ZeroExt(56, v0.sel(bv(1)))
            for o in (0, 2):
                yield f"{I.name} <= nmethods + {o}", lambda e, x=x, o=o: z3.ULE(x(e), nm + o)
                yield f"no method before {I.name} - {o} is 'no authentication'", Scan(fname, lambda e, k, x=x, o=o: z3.Implies(z3.And(z3.ULE(2, k), z3.ULT(k, x(e) + 2 - o), z3.ULE(x(e), 600)), v0.sel(k) != 0))
    h = Houdini(re.compile("s5_get_handshake.*"), gen)

    def make():
        ex, run = handshake(v, h, cell)
        return ex, run
    h.solve(make)


def handshake(v, h, cell):
    ex, st = setup(v, "s5_get_handshake")
    h.attach(ex)
    rid = rb.make_pure(ex, st, rlay)
    cell["v0"] = v0 = view(ex, st, rlay, rid)
    cexer(ex, "handshake", v0, st.clone(), rid)
    n, V = v0.size, lambda i: v0.sel(bv(i))
    nm = z3.ZeroExt(56, V(1))
    v.cover(ex, st)
    fname = V(0).decl().name()
    nothing = (fname, lambda k: z3.Implies(z3.And(z3.ULE(2, k), z3.ULT(k, nm + 2)), v0.sel(k) != 0))
    w = ex.fresh("w")                 # any position of the method list

    def ret(s, r):
        frame = z3.And(z3.UGE(n, 2), V(0) == 5, z3.ULE(nm + 2, n))
        good = z3.And(frame, z3.ULT(w, nm), v0.sel(z3.simplify(w + 2)) == 0)
        inc = z3.Or(n == 0, z3.And(V(0) == 5, z3.Or(n == 1, z3.And(nm != 0, z3.ULT(n, nm + 2)))))
        ok = r == SUCCESS
        ex.oblige(s, "only a complete handshake of version 5 is accepted", z3.Implies(ok, frame), "postcondition")
        a = s.clone()
        a.foralls.append(nothing)
        ex.oblige(a, "a handshake that does not offer 'no authentication' is not accepted", z3.Not(ok), "postcondition")
        ex.oblige(s, "a complete valid handshake is accepted", z3.Implies(z3.And(good, n == nm + 2), ok), "postcondition")
        ex.oblige(s, "an incomplete handshake is reported as incomplete", z3.Implies(inc, r == bv(MORE, 32)), "postcondition")
        ex.oblige(s, "a complete or malformed handshake is not reported as incomplete", z3.Implies(z3.And(z3.UGE(n, 3), z3.Not(inc)), r != bv(MORE, 32)), "postcondition")
        a, b = s.clone(), s.clone()
        a.assume(ok)
        if ex.feasible(a): consumed(ex, a, rid, v0, z3.simplify(nm + 2), "accepted handshake")
        b.assume(r == bv(MORE, 32))
        if ex.feasible(b): content_unchanged(ex, b, rid, v0, "incomplete handshake")
    return ex, lambda: ex.run(st, find(M, "s5_get_handshake"), [Ptr(rid)], ret)


def resolver(ex, name_ok, st0):
    def h(ex, st, a, I):
        name_ok(ex, st, a[0], I.line)
        rec(st, "resolve")
        def good(s):
            ip = ex.fresh("ip", 32)
            ex.store(s, Ptr(a[1].r, add64(a[1].off, 4)), ip, 4, I.line)
            s.ghost["resolved"] = ip
            return bv(1, 1)
        def bad(s): return bv(0, 1)
        return osm.alts(ex, st, [(T, lambda s: setres(s, good(s), True)), (T, lambda s: setres(s, bad(s), False))])
    return h


def t_connect(v):
    ex, st = setup(v, "s5_get_connect_request")
    rid = rb.make_pure(ex, st, rlay)
    v0 = view(ex, st, rlay, rid)
    cexer(ex, "connect", v0, st.clone(), rid)
    n, V = v0.size, lambda i: v0.sel(bv(i))
    dl = z3.ZeroExt(56, V(4))
    addr = c18.new_obj(ex, st, "address")
    dom = ex.new_reg(st, "domain", "cells", 32)

    def name_is(ex, st, p, line, what):
        """the C string at p is exactly the requested name"""
        p = ex.resolve(st, p)
        ln = ex.concretize(st, dl)
        off = p.off
        rb.need_range(ex, st, p, dl + 1, type("I", (), {"line": line})(), False, what)
        sel = rb.ptr_bytes(ex, st, p)
        i = ex.fresh("i")
        ex.oblige(st, f"{what}: exactly the requested name, unabridged", z3.And(z3.Implies(z3.ULT(i, dl), z3.And(sel(i) == v0.sel(z3.simplify(bv(5) + i)), sel(i) != 0)), sel(dl) == 0), "postcondition", line)

    def resolve(ex, st, a, I):
        name_is(ex, st, a[0], I.line, "the resolved name")
        rec(st, "resolve")
        alts = []
        s2 = st.clone()
        s2.ghost["resolved"] = None
        alts.append((s2, F))
        st.assume(dl != 0)
        if ex.feasible(st):
            ip = ex.fresh("ip", 32)
            ex.store(st, Ptr(a[1].r, add64(a[1].off, 4), a[1].idx), ip, 4, I.line)
            st.ghost["resolved"] = ip
            alts.append((st, T))
        return Alts(alts)
    ex.on(r"^cyclone::socket_api::resolve_hostname\(", resolve)

    def assign(ex, st, a, I):
        if a[0].r != dom.id: raise Unsupported("another string is assigned")
        p = ex.resolve(st, a[1])
        if p.r == addr and p.off == L.off("Address", "m_ip_string", c18.FIELDS): st.ghost["domain"] = "ip"
        else:
            name_is(ex, st, p, I.line, "the reported name")
            if len(a) > 2: ex.oblige(st, "the reported name has the requested length", a[2] == dl, "postcondition", I.line)
            st.ghost["domain"] = "name"
        return a[0]
    ex.on(r"^std::__cxx11::basic_string<char, .*>::(operator=|assign)\(char const\*(, unsigned long)?\)$", assign)
    v.cover(ex, st)

    def ret(s, r):
        ok = r == SUCCESS
        hd = z3.And(z3.UGE(n, 4), V(0) == 5, V(1) == 1)
        v4, dn = z3.And(hd, V(3) == 1), z3.And(hd, V(3) == 3)
        res = s.ghost.get("resolved")
        ip4 = z3.Concat(V(7), V(6), V(5), V(4))
        inc = z3.Or(n == 0, z3.And(V(0) == 5, z3.Or(n == 1, z3.And(V(1) == 1, z3.Or(z3.ULT(n, 4), z3.And(V(3) == 1, z3.ULT(n, 10)), z3.And(V(3) == 3, z3.Or(n == 4, z3.ULT(n, dl + 7))))))))
        nonul = z3.Implies(z3.BoolVal(True), z3.And([z3.Implies(z3.ULT(bv(j), dl), V(5 + j) != 0) for j in range(255)]))
        ex.oblige(s, "only a complete CONNECT request for an IPv4 address or a name is accepted", z3.Implies(ok, z3.Or(z3.And(v4, z3.UGE(n, 10)), z3.And(dn, z3.UGE(n, dl + 7)))), "postcondition")
        ex.oblige(s, "a complete IPv4 request is accepted", z3.Implies(z3.And(v4, n == 10), ok), "postcondition")
        ex.oblige(s, "a complete request for a well-formed name is accepted when it resolves", z3.Implies(z3.And(dn, z3.UGE(n, 5), n == dl + 7, nonul), T if res is None and len(calls(s, "resolve")) else (ok if res is not None else F)), "postcondition")
        ex.oblige(s, "a name that does not resolve is rejected", z3.Implies(dn, z3.Or(z3.Not(ok), T if res is not None else F)), "postcondition")
        ex.oblige(s, "an incomplete request is reported as incomplete", z3.Implies(inc, r == bv(MORE, 32)), "postcondition")
        ex.oblige(s, "a complete or malformed request is not reported as incomplete", z3.Implies(z3.And(z3.UGE(n, 4), z3.Not(inc)), r != bv(MORE, 32)), "postcondition")
        for c, what, ln, ip, po in ((v4, "IPv4 request", bv(10), ip4, (8, 9)), (dn, "name request", z3.simplify(dl + 7), res, None)):
            t = s.clone()
            t.assume(ok, c)
            if not ex.feasible(t) or ip is None: continue
            consumed(ex, t, rid, v0, ln, f"accepted {what}")
            hi, lo = (V(8), V(9)) if po else (v0.sel(z3.simplify(dl + 5)), v0.sel(z3.simplify(dl + 6)))
            c18.holds(ex, t, addr, ip, z3.Concat(hi, lo), f"accepted {what}")
            ex.oblige(t, f"accepted {what}: the name or address text is reported", T if t.ghost.get("domain") == ("ip" if po else "name") else F, "postcondition")
        b = s.clone()
        b.assume(r == bv(MORE, 32))
        if ex.feasible(b): content_unchanged(ex, b, rid, v0, "incomplete request")
    ex.run(st, find(M, "s5_get_connect_request"), [Ptr(rid), Ptr(addr), Ptr(dom.id)], ret)


def t_acts(v):
    for fn in ("s5_build_handshake_act", "s5_build_connect_act"):
        ex, st = setup(v, fn)
        rid = rb.make_pure(ex, st, rlay)
        v0 = view(ex, st, rlay, rid)
        st.assume(z3.ULE(v0.cap, bv(1 << 60)))
        args = [Ptr(rid)]
        want = [bv(5, 8), bv(0, 8)]
        if fn.endswith("connect_act"):
            addr = c18.new_obj(ex, st, "address", True)
            rep = ex.fresh("reply", 8)
            x = c18.sa(ex, st, addr)
            args += [rep, Ptr(addr)]
            by = lambda t, k: z3.Extract(8 * k + 7, 8 * k, t)
            want = [bv(5, 8), rep, bv(0, 8), bv(1, 8)] + [by(c18.addr(x), k) for k in range(4)] + [by(c18.port(x), k) for k in range(2)]
        v.cover(ex, st)

        def ret(s, r):
            got = view(ex, s, rlay, rid)
            ex.oblige(s, f"the reply is exactly {len(want)} bytes", got.size == v0.size + len(want), "postcondition")
            for k, b in enumerate(want): ex.oblige(s, f"byte {k} of the reply is as in RFC 1928", got.sel(z3.simplify(v0.size + k)) == b, "postcondition")
            i = ex.fresh("i")
            ex.oblige(s, "what was in the output before stays in front", z3.Implies(z3.ULT(i, v0.size), got.sel(i) == v0.sel(i)), "postcondition")
        ex.run(st, find(M, fn), args, ret)


def t_resolve(v):
    """resolve_hostname for result lists of up to 3 entries"""
    for cnt in range(4):
        ex, st = setup(v, f"resolve_hostname ({cnt} results)")
        o = {f: L.off("addrinfo", f, AIF) for f in AIF}
        fam, ips, node = [], [], []
        for k in range(cnt):
            r = ex.new_reg(st, f"ai{k}", "cells", L.sizeof("addrinfo"))
            sa = ex.new_reg(st, f"sa{k}", "cells", 16)
            f, ip = ex.fresh("family", 32), ex.fresh("ip", 32)
            ex.store_cell(st, r.id, o["ai_family"], 4, f)
            ex.store_cell(st, sa.id, 4, 4, ip)
            ex.store_cell(st, r.id, o["ai_addr"], 8, Ptr(sa.id, 0))
            node.append(r.id); fam.append(f); ips.append(ip)
        for k in range(cnt): ex.store_cell(st, node[k], o["ai_next"], 8, Ptr(node[k + 1], 0) if k + 1 < cnt else NULL)
        nm = ex.new_reg(st, "name", "bytes", bv(64))
        ad = ex.new_reg(st, "addr", "cells", 16)
        for k in range(16): ex.store_cell(st, ad.id, k, 1, ex.fresh(f"a{k}", 8))
        before = snapshot(ex, st, Ptr(ad.id), 16)

        def gai(ex, st, a, I):
            ex.oblige(st, "the given name is resolved", T if a[0].r == nm.id else F, "postcondition", I.line)
            r = ex.fresh("gai", 32)
            s2 = st.clone()
            s2.assume(r != 0)
            st.assume(r == 0)
            ex.store(st, a[3], Ptr(node[0], 0) if cnt else NULL, 8, I.line)
            st.ghost["listed"] = True
            return Alts([(s2, r), (st, r)])
        ex.on(r"^getaddrinfo$", gai)
        ex.on(r"^freeaddrinfo$", lambda ex, st, a, I: rec(st, "free", a[0]))
        ex.on(r"^cyclone::socket_api::global_init\(", lambda *a: None)

        def ret(s, r):
            r = ex.boolval(r)
            after = snapshot(ex, s, Ptr(ad.id), 16)
            listed = s.ghost.get("listed", False)
            any4 = z3.Or([f == 2 for f in fam]) if listed and cnt else F
            ex.oblige(s, "success exactly when an IPv4 address was found", r == any4, "postcondition")
            if listed:
                ex.oblige(s, "a found address is one of the results", z3.Implies(r, z3.Or([z3.And(f == 2, c18.addr(after) == ip) for f, ip in zip(fam, ips)] + [F])), "postcondition")
                ex.oblige(s, "the result list is released once", T if len(calls(s, "free")) == 1 else F, "resource")
            ex.oblige(s, "nothing but the address is changed", z3.And(c18.port(after) == c18.port(before), c18.fam(after) == c18.fam(before), c18.pad(after) == c18.pad(before)), "frame")
        ex.run(st, find(M, "cyclone::socket_api::resolve_hostname"), [Ptr(nm.id), Ptr(ad.id)], ret)
AIF = ["ai_flags", "ai_family", "ai_socktype", "ai_protocol", "ai_addrlen", "ai_addr", "ai_canonname", "ai_next"]


def tasks(tier):
    return [("s5_get_handshake", t_handshake), ("s5_get_connect_request", t_connect), ("s5_build_handshake_act, s5_build_connect_act", t_acts), ("resolve_hostname (bounded)", t_resolve)]


def replay(failed, errors, seed, tier):
    h = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "s5_harness.cpp")
    b = bld.native("s5", h, SRC, extra=["samples/socks5"], flags=nat.ASAN)
    cases = [f"{o.cex['op']} " + " ".join(map(str, o.cex["data"])) for o in failed if o.cex]
    return nat.confirm(b, cases, [], seed, 25 if tier == "quick" else 200)
