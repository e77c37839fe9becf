"""C22: the relay samples (relay_local, relay_server, relay_pipe), from the real code.  The message loops are decided by one arbitrary round (any frame, any buffered
bytes, any set of sessions), the other callbacks as a whole; the map of sessions is a ghost with one arbitrary entry per key that is looked up."""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from dv.loops import changed_regions
from . import osm, stdfn, sptr, rb
from .osm import rec

TITLE = "C22"
FILES = {k: f"samples/relay/relay_{k}.cpp" for k in ("local", "server", "pipe")}
TRUSTED = libc.TRUST_TEXT + sptr.TRUST + stdfn.TRUST + [
    "std::map: a finite map; iteration visits every element once, and an iterator is usable while its element exists", "std::vector: a sequence of elements in one array",
    "Packet and RingBuf through their contracts (C06, C01); Rijndael and the key agreement through theirs (C08, C09): the two ends hold the same key, decrypt undoes encrypt on whole blocks",
    "TcpConnection, TcpClient and TcpServer through their contracts (C12, C13, C16, C17): send passes the bytes on in order, on_close is called once, on the loop's thread, after the connection is closed",
    "std::atomic, PeriodValue and logging have no effect on what is forwarded"]
ASSUMPTIONS = ["less than 2^31 bytes are buffered by one connection", "the ids of the connections of one server are unique (C16)", "callbacks of one pipe run on one thread (relay_pipe with one work thread)",
               "a session is in the map as long as its connection to the up server is not closed (every removal is an obligation)"]
PK = {"local": ["m_upClient", "m_upState", "m_publicKey", "m_privateKey", "m_secretKey", "m_encrypt", "m_decrypt"],
      "server": ["m_workthread_index", "m_looper", "m_downConnection", "m_downState", "m_publicKey", "m_privateKey", "m_secretKey", "m_encrypt", "m_decrypt"]}
CF = {"local": ["m_upAddress", "m_downServer", "m_encryptMode", "m_relayPipes"], "server": ["m_downServer", "m_upAddress", "m_encryptMode"]}
SF = {"local": ["m_id", "m_downConnection"], "server": ["m_id", "m_upClient", "m_upState"]}
LIS = ["on_connected", "on_message", "on_close"]
HANDSHAKE, NEW, CLOSE, FORWARD = 100, 101, 102, 103
CONNECTING, CONNECTED, CLOSING, CLOSED = range(4)           # connection states, and the states of a session of the server
MOD = {}


def build():
    for k, f in FILES.items():
        M, L = bld.module([f], extra=["samples/relay"])
        MOD[k] = (M, L, rb.Lay(L) if k != "pipe" else rb.Lay(L))


def fn(M, rx):
    c = [d for d in M.bydem if re.match(rx, d) and M.has(M.bydem[d])]
    if len(c) != 1: raise bld.BuildError(f"{rx}: {len(c)} definitions")
    return c[0]


def of(st, *n): return [t for t in st.trace if t[0] in n]
def be(src, off): return z3.Concat(src(bv(off)), src(bv(off + 1)))
def le(src, off, n): return z3.simplify(z3.Concat(*[src(bv(off + i)) for i in reversed(range(n))]))
def B(x): return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def callees(M, f, blocks=None, seen=None):
    """demangled names of everything that may be called from these blocks, through functions of the sample"""
    seen = set() if seen is None else seen
    out = set()
    for b in (blocks if blocks is not None else f.blocks):
        for I in b.insts:
            if I.op not in ("call", "invoke"): continue
            n = getattr(I.extra, "val", None)
            if not isinstance(n, str): continue
            d = M.dem.get(n, n)
            out.add(d)
            if re.match(r"^(\w+ )*Relay", d) and n not in seen and M.has(n):
                seen.add(n)
                out |= callees(M, M.fn(n), None, seen)
    return out


class R:
    def __init__(self, v, name, kind):
        self.v, self.kind = v, kind
        self.M, self.L, self.rlay = MOD[kind]
        self.ex = ex = v.exec(self.M, name)
        libc.install(ex)
        stdfn.install(ex)
        sptr.install(ex, lambda *a: None)
        rb.install(ex, self.rlay, rb.ALL)
        st = self.st = State()
        st.ghost.update(rb_pure=True, pk={}, cl={}, cn={}, map=(), iter=None, rij={}, fn={})
        self.rb_of = {}
        on, L = ex.on, self.L
        nop = lambda ex, st, a, I: None
        on(r"^cyclone::disk_log\(", nop)
        on(r"^cyclone::PeriodValue<", nop)
        on(r"^std::atomic<long>::operator[+-]=\(", lambda ex, st, a, I: ex.fresh("total"))
        on(r"^cyclone::Address::~?Address\(", nop)
        on(r"^cyclone::Address::operator=\(", lambda ex, st, a, I: a[0])
        on(r"^cyclone::Address::get_ip\(\) const$", lambda ex, st, a, I: Ptr(0, ex.fresh("ip")))
        on(r"^cyclone::Address::get_port\(\) const$", self.port)
        on(r"^cyclone::TcpConnection::get_(peer|local)_addr\(\) const$", self.addr)
        C = r"^cyclone::TcpConnection::"
        on(C + r"get_id\(\) const$", lambda ex, st, a, I: self.cn(st, a[0])["id"])
        on(C + r"get_state\(\) const$", lambda ex, st, a, I: self.cn(st, a[0])["state"])
        on(C + r"get_param\(\)( const)?$", lambda ex, st, a, I: Ptr(self.pipe, 0))
        on(C + r"set_param\(", lambda ex, st, a, I: rec(st, "set_param", self.who(st, a[0]), a[1]))
        on(C + r"get_looper\(\) const$", lambda ex, st, a, I: Ptr(self.looper, 0))
        on(C + r"get_input_buf\(\)$", lambda ex, st, a, I: Ptr(self.rbuf(st, a[0]), 0))
        on(C + r"send\(", lambda ex, st, a, I: self.send(st, a, I, "conn"))
        on(C + r"shutdown\(\)$", lambda ex, st, a, I: rec(st, "refuse", self.who(st, a[0])))
        S = r"^cyclone::TcpServer::"
        on(S + r"shutdown_connection\(", lambda ex, st, a, I: rec(st, "refuse", sptr.get(ex, st, a[1], I.line).r))
        on(S + r"send_work_message\(", lambda ex, st, a, I: rec(st, "work", a[1]))
        on(S + r"stop\(\)$", lambda ex, st, a, I: rec(st, "stop"))
        K = r"^cyclone::TcpClient::"
        on(K + r"get_id\(\) const$", lambda ex, st, a, I: self.cl(st, a[0])["id"])
        on(K + r"get_param\(\) const$", lambda ex, st, a, I: Ptr(self.pipe, 0))
        on(K + r"get_connection_state\(\) const$", lambda ex, st, a, I: self.cl(st, a[0])["state"])
        on(K + r"send\(", lambda ex, st, a, I: self.send(st, a, I, "client"))
        on(K + r"connect\(", self.connect)
        on(K + r"disconnect\(\)$", self.disconnect)
        P = r"^cyclone::Packet::"
        on(P + r"Packet\(\)$", lambda ex, st, a, I: self.pset(st, a[0], None))
        on(P + r"(~Packet|clean)\(\)$", lambda ex, st, a, I: self.pset(st, a[0], None))
        on(P + r"build_from_ringbuf\(", self.from_ring)
        on(P + r"build_from_memory\(", self.from_memory)
        on(P + r"get_memory_buf\(\)( const)?$", lambda ex, st, a, I: Ptr(self.pget(st, a[0], I)[0], 0))
        on(P + r"get_memory_size\(\) const$", lambda ex, st, a, I: z3.simplify(z3.ZeroExt(48, self.pget(st, a[0], I)[1]) + 4))
        on(P + r"get_packet_content\(\)( const)?$", lambda ex, st, a, I: Ptr(self.pget(st, a[0], I)[0], 4))
        on(P + r"get_packet_size\(\) const$", lambda ex, st, a, I: self.pget(st, a[0], I)[1])
        on(P + r"get_packet_id\(\) const$", lambda ex, st, a, I: be(rb.ptr_bytes(ex, st, Ptr(self.pget(st, a[0], I)[0], 0)), 2))
        on(r"^cyclone::socket_api::(ntoh|hton)_16\(", lambda ex, st, a, I: z3.simplify(z3.Concat(z3.Extract(7, 0, a[0]), z3.Extract(15, 8, a[0]))))
        J = r"^cyclone::Rijndael::"
        on(J + r"Rijndael\(", self.cipher)
        on(J + r"~Rijndael\(\)$", nop)
        on(J + r"(en|de)crypt\(", self.crypt)
        on(r"^cyclone::DH_generate_key_pair\(", self.key_pair)
        on(r"^cyclone::DH_generate_key_secret\(", self.key_secret)
        on(r"^bool std::operator(!=|==)<.*>\(std::shared_ptr<.*> const&, std::shared_ptr<.*> const&\)$", self.sp_cmp)
        on(r"^std::_Bind_helper<.*std::bind<", self.bind)
        on(r"^(std::enable_if<.*)?std::function<.*>::operator=<", lambda ex, st, a, I: (stdfn.put(st, a[0], stdfn.get(st, a[1]) or stdfn.Target("closure", T)), a[0])[1])
        on(r"^std::function<.*>::function<.*, void>\(", lambda ex, st, a, I: stdfn.put(st, a[0], stdfn.get(st, a[1]) or stdfn.Target("closure", T)))
        on(r"^std::shared_ptr<.*> std::make_shared<RelaySession,", self.make_session)
        on(r"^std::shared_ptr<.*> std::make_shared<cyclone::TcpClient,", self.make_client)
        on(r"^std::shared_ptr<.*> std::make_shared<RelayPipe,", self.make_pipe)
        on(r"^cyclone::sys_api::thread_create_detached\(", lambda ex, st, a, I: rec(st, "thread"))
        M_ = r"^std::map<int, (RelaySession|std::shared_ptr<RelaySession>), .*>::"
        on(M_ + r"~?map\(\)$", nop)
        on(M_ + r"find\(", lambda ex, st, a, I: self.find(st, ex.load(st, a[1], _IntTy(32)), lambda s, e: Ptr(e["node"], 0) if e["present"] else Ptr(self.end, 0)))
        on(M_ + r"count\(", lambda ex, st, a, I: self.find(st, ex.load(st, a[1], _IntTy(32)), lambda s, e: bv(1 if e["present"] else 0)))
        on(M_ + r"end\(\)( const)?$", lambda ex, st, a, I: Ptr(self.end, 0))
        on(M_ + r"begin\(\)( const)?$", lambda ex, st, a, I: (st.ghost.update(iter="before"), Ptr(self.it, 0))[1])
        on(M_ + r"empty\(\) const$", lambda ex, st, a, I: ex.fresh("empty", 1) if not any(e["present"] for e in st.ghost["map"]) else F)
        on(M_ + r"clear\(\)$", self.clear)
        on(M_ + r"erase.*\(std::_Rb_tree_iterator<", self.erase_it)
        on(M_ + r"erase.*\(int const&\)$", lambda ex, st, a, I: self.find(st, ex.load(st, a[1], _IntTy(32)), lambda s, e: (self.drop(s, e, I), bv(1))[1] if e["present"] else bv(0)))
        on(M_ + r"insert\(", self.insert)
        on(M_ + r"operator\[\]\(", lambda ex, st, a, I: self.find(st, ex.load(st, a[1], _IntTy(32)), lambda s, e: Ptr((e if e["present"] else self.put(s, e["key"], None))["node"], 8)))
        IT = r"^(bool )?std::_Rb_tree_(const_)?iterator<.*>::"
        on(IT + r"operator(->|\*)\(\) const$", self.deref)
        on(IT + r"operator\+\+\((int)?\)$", self.advance)
        on(r"^std::operator[!=]=\(std::_Rb_tree_iterator<", self.it_cmp)
        if kind == "local": on(r"^std::vector<RelayLocal::RelayPipe\*, .*>::(operator\[\]|at)\(unsigned long\)( const)?$", self.slot_at)
        self.end, self.it = ex.new_reg(st, "mapend", "cells", 0).id, ex.new_reg(st, "iterator", "cells", 0).id
        self.looper = ex.new_reg(st, "looper", "cells", 8).id
        self.srv = ex.new_reg(st, "tcpserver", "cells", 8).id
        self.pipe = None
        ex.loop_specs.append((re.compile(r".*"), self.which_loop, None))
        self.loops = {}
        ex.find_loop_spec = self.find_loop

    # ---- loops
    def find_loop(self, f, hdr):
        if hdr not in self.loops:
            n = callees(self.M, f, f.loops[hdr])
            has = lambda rx: any(re.search(rx, d) for d in n)
            self.loops[hdr] = Rounds(self) if has(r"Packet::build_from_ringbuf\(") else Drain(self) if has(r"RingBuf::memcpy_out\(") else Each(self) if has(r"_Rb_tree_iterator<.*operator\+\+") else None
        return self.loops[hdr]

    def which_loop(self, f, hdr): return False

    def ob(self, st, name, goal, kind="postcondition", line=None): self.ex.oblige(st, name, B(goal), kind, line)

    # ---- objects
    def who(self, st, p): return self.ex.resolve(st, p).r
    def cn(self, st, p):
        r = self.who(st, p)
        if r not in st.ghost["cn"]:
            if r == 0:
                self.ob(st, "a connection that does not exist is not used", F, "memory")
                raise PathEnd()
            raise Unsupported("unknown connection")
        return st.ghost["cn"][r]

    def cl(self, st, p):
        r = self.who(st, p) if isinstance(p, Ptr) else p
        if r not in st.ghost["cl"]: raise Unsupported("unknown client")
        return st.ghost["cl"][r]

    def cl_upd(self, st, r, **d): st.ghost["cl"] = {**st.ghost["cl"], r: {**st.ghost["cl"][r], **d}}

    def rbuf(self, st, p):
        self.cn(st, p)
        return self.rb_of[self.who(st, p)]

    def handle(self, st, r, name="sp"):
        h = self.ex.new_reg(st, name, "cells", 16)
        self.ex.store_cell(st, h.id, 0, 8, Ptr(r, 0) if r else NULL)
        self.ex.store_cell(st, h.id, 8, 8, NULL)
        return h.id

    def conn(self, st, name, id=None, state=None):
        ex = self.ex
        r = ex.new_reg(st, name, "cells", 64)
        rid = rb.make_pure(ex, st, self.rlay, "rb_" + name)
        st.assume(z3.ULT(rb.view(ex, st, self.rlay, rid).size, bv(1 << 31)))
        self.rb_of[r.id] = rid
        st.ghost["cn"] = {**st.ghost["cn"], r.id: dict(id=ex.fresh(name + "_id", 32) if id is None else id, state=ex.fresh("state", 32) if state is None else state)}
        return r.id

    def client(self, st, name, id, state):
        r = self.ex.new_reg(st, name, "cells", self.L.sizeof("cyclone::TcpClient"))
        st.ghost["cl"] = {**st.ghost["cl"], r.id: dict(id=id, state=state)}
        return r.id

    def view(self, s, c): return rb.view(self.ex, s, self.rlay, self.rb_of[c])

    def rest(self, s, c, v0, n, what):
        """exactly the first n bytes of the buffer were consumed"""
        g, i = self.view(s, c), self.ex.fresh("i")
        self.ob(s, what, z3.And(z3.ULE(n, v0.size), g.size == v0.size - n, z3.Implies(z3.ULT(i, g.size), g.sel(i) == v0.sel(z3.simplify(i + n)))))

    def send(self, st, a, I, kind):
        (self.cn if kind == "conn" else self.cl)(st, a[0])
        n = b64(a[2])
        rb.need_range(self.ex, st, a[1], n, I, False, "the bytes sent")
        rec(st, "send", self.who(st, a[0]), rb.ptr_bytes(self.ex, st, a[1]), n)

    def addr(self, ex, st, a, I):
        w = "local" if "get_local" in ex.m.dem[I.extra.val] else "peer"
        if len(a) > 1: q, c = ex.resolve(st, a[0]), self.who(st, a[1])
        else: q, c = Ptr(ex.new_reg(st, "address", "cells", self.L.sizeof("cyclone::Address")).id, 0), self.who(st, a[0])
        st.ghost["addr"] = {**st.ghost.get("addr", {}), (q.r, str(q.off)): (w, c)}
        return q if len(a) == 1 else None

    def port(self, ex, st, a, I):
        q = ex.resolve(st, a[0])
        x = st.ghost.get("addr", {}).get((q.r, str(q.off)))
        return st.ghost["cn"][x[1]]["port"] if x and x[0] == "local" and "port" in st.ghost["cn"].get(x[1], {}) else ex.fresh("port", 16)

    def sp_cmp(self, ex, st, a, I):
        e = ex.ptr_eq(sptr.get(ex, st, a[0], I.line), sptr.get(ex, st, a[1], I.line))
        return z3.Not(e) if "operator!=" in ex.m.dem[I.extra.val] else e

    def bind(self, ex, st, a, I):
        t = None
        for x in a:
            if isinstance(x, FnPtr): t = x.name
            if isinstance(x, Ptr) and x.r in st.mem and x.r != a[0].r:
                sz = st.mem[x.r].size
                if is_c(sz) and cval(sz) < 8: continue
                try: y = ex.load(st, x, _PtrTy())
                except Unsupported: continue
                if isinstance(y, FnPtr): t = y.name
        stdfn.put(st, a[0], ("bound", ex.m.dem.get(t, t)))

    # ---- packets
    def pk(self, st, p):
        q = self.ex.resolve(st, p)
        return (q.r, q.off if isinstance(q.off, int) else str(q.off))

    def pset(self, st, p, v): st.ghost["pk"] = {**st.ghost["pk"], self.pk(st, p): v}

    def pget(self, st, p, I):
        v = st.ghost["pk"].get(self.pk(st, p))
        if v is None:
            self.ob(st, "only a packet that was built is used", F, "callee precondition", I.line)
            raise PathEnd()
        return v

    def from_ring(self, ex, st, a, I):
        self.ob(st, "frames have a head of four bytes", b64(a[1]) == 4, "callee precondition", I.line)
        q = ex.resolve(st, a[2])
        v0 = rb.view(ex, st, self.rlay, q.r)
        n = be(v0.sel, 0)
        full = z3.And(z3.UGE(v0.size, bv(4)), z3.UGE(v0.size, z3.ZeroExt(48, n) + 4))

        def yes(s):
            m = z3.simplify(z3.ZeroExt(48, n) + 4)
            r = ex.new_reg(s, "packet", "bytes", m)
            s.mem[r.id].content = CFun(lambda i: v0.sel(i))
            self.pset(s, a[0], (r.id, n))
            rb.set_pure(s, q.r, q.off, rb.drop(v0, m))
            rec(s, "frame")
            return T

        def no(s):
            self.pset(s, a[0], None)
            return F
        return osm.alts(ex, st, [(full, yes), (z3.Not(full), no)])

    def from_memory(self, ex, st, a, I):
        self.ob(st, "frames have a head of four bytes", b64(a[1]) == 4, "callee precondition", I.line)
        n1, n2 = z3.ZeroExt(48, a[3]), z3.ZeroExt(48, a[5])
        self.ob(st, "the content fits in one packet", z3.ULE(n1 + n2, bv(0xffff)), "callee precondition", I.line)
        parts = []
        for p, n in ((a[4], n1), (a[6], n2)):
            if isinstance(p, Ptr) and is_null(p): parts.append(None)
            else:
                rb.need_range(ex, st, p, z3.simplify(n), I, False, "the content of a packet")
                parts.append(rb.ptr_bytes(ex, st, p) if not (z3.is_bv_value(z3.simplify(n)) and cval(z3.simplify(n)) == 0) else None)
        m = z3.simplify(a[3] + a[5])
        r = ex.new_reg(st, "packet", "bytes", z3.simplify(n1 + n2 + 4))
        pad = lambda i: bv(0xce, 8)
        x, y = (p or pad for p in parts)
        head = [z3.Extract(15, 8, m), z3.Extract(7, 0, m), z3.Extract(15, 8, a[2]), z3.Extract(7, 0, a[2])]
        st.mem[r.id].content = CFun(lambda i: z3.If(i == 0, head[0], z3.If(i == 1, head[1], z3.If(i == 2, head[2], z3.If(i == 3, head[3], z3.If(z3.ULT(i - 4, n1), x(z3.simplify(i - 4)), y(z3.simplify(i - 4 - n1))))))))
        self.pset(st, a[0], (r.id, m))

    # ---- keys and ciphers
    def sixteen(self, st, p, name):
        f = z3.Function(f"{name}!{next(self.ex.fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(8))
        q = self.ex.resolve(st, p)
        for i in range(2): self.ex.store(st, Ptr(q.r, add64(q.off, 8 * i)), le(f, 8 * i, 8), 8)
        return f

    def key_pair(self, ex, st, a, I):
        for p in a[:2]: ex.check_access(st, ex.resolve(st, p), 16, True, I.line, "key")
        rec(st, "pair", self.sixteen(st, a[0], "public"), self.sixteen(st, a[1], "private"), self.pk(st, a[0]), self.pk(st, a[1]))

    def key_secret(self, ex, st, a, I):
        for k, p in enumerate(a[:3]): ex.check_access(st, ex.resolve(st, p), 16, k == 0, I.line, "key")
        priv, pub = rb.ptr_bytes(ex, st, a[1]), rb.ptr_bytes(ex, st, a[2])
        pv, pb = le(priv, 0, 16), le(pub, 0, 16)
        rec(st, "secret", pv, pb, le(self.sixteen(st, a[0], "secret"), 0, 16))

    def cipher(self, ex, st, a, I):
        ex.check_access(st, ex.resolve(st, a[1]), 16, False, I.line, "cipher key")
        st.ghost["rij"] = {**st.ghost["rij"], self.who(st, a[0]): le(rb.ptr_bytes(ex, st, a[1]), 0, 16)}

    def crypt(self, ex, st, a, I):
        w = "encrypt" if "encrypt(" in ex.m.dem[I.extra.val] else "decrypt"
        n = b64(a[3])
        if self.who(st, a[0]) not in st.ghost["rij"]:
            self.ob(st, "a cipher is used only after the handshake made it", F, "callee precondition", I.line)
            raise PathEnd()
        self.ob(st, "only whole blocks are ciphered", z3.URem(n, bv(16)) == 0, "callee precondition", I.line)
        self.ob(st, "packets are ciphered independently of each other", len(a) < 5 or is_null(a[4]), "callee precondition", I.line)
        rb.need_range(ex, st, a[1], n, I, False, "the bytes ciphered")
        rb.need_range(ex, st, a[2], n, I, True, "the ciphered bytes")
        src = rb.ptr_bytes(ex, st, a[1])
        f = z3.Function(f"{w}!{next(ex.fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(8))
        rec(st, w, self.who(st, a[0]), src, n, f)
        rb.write_bytes(ex, st, ex.resolve(st, a[2]), n, lambda i: f(b64(i)), I.line)

    # ---- sessions
    def new_node(self, s, key):
        n = self.ex.new_reg(s, "node", "cells", 40).id
        self.ex.store_cell(s, n, 0, 4, key)
        return n

    def session(self, s, key):
        """an arbitrary session of the map"""
        ex = self.ex
        n = self.new_node(s, key)
        if self.kind == "server":
            L = self.L
            r = ex.new_reg(s, "session", "cells", L.sizeof("RelaySession")).id
            o = {f: L.off("RelaySession", f, SF["server"]) for f in SF["server"]}
            x, y = ex.fresh("upState", 32), ex.fresh("clientState", 32)
            s.assume(self.sinv(x, y))
            ex.store_cell(s, r, o["m_id"], 4, key)
            ex.store_cell(s, r, o["m_upClient"], 8, Ptr(self.client(s, "upclient", key, y), 0))
            ex.store_cell(s, r, o["m_upClient"] + 8, 8, NULL)
            ex.store_cell(s, r, o["m_upState"], 4, x)
            ex.store_cell(s, n, 8, 8, Ptr(r, 0))
            ex.store_cell(s, n, 16, 8, NULL)
            return dict(key=key, present=True, node=n, sess=r, old=True)
        c = self.conn(s, "downconn", key)
        ex.store_cell(s, n, 8, 4, key)
        ex.store_cell(s, n, 16, 8, Ptr(c, 0))
        ex.store_cell(s, n, 24, 8, NULL)
        return dict(key=key, present=True, node=n, sess=c, old=True)

    def sinv(self, x, y):
        """the state of a session and of its client"""
        return z3.And(x >= 0, x <= 3, y >= 0, y <= 3, z3.Implies(x == CONNECTING, y == CONNECTING), z3.Implies(x == CONNECTED, z3.Or(y == CONNECTED, y == CLOSING)),
                      z3.Implies(x == CLOSING, z3.Or(y == CONNECTED, y == CLOSING)), z3.Implies(x == CLOSED, y == CLOSED))

    def sfld(self, s, r, f, n=4):
        o = self.L.off("RelaySession", f, SF["server"])
        return self.ex.load(s, Ptr(r, o), _IntTy(32) if n == 4 else _PtrTy())

    def sclient(self, s, r): return sptr.get(self.ex, s, Ptr(r, self.L.off("RelaySession", "m_upClient", SF["server"]))).r

    def find(self, st, key, f):
        """the entry of a key (present, absent, or not known yet: then both)"""
        ex, key = self.ex, z3.simplify(key)
        maybe = []
        for e in st.ghost["map"]:
            if osm.same(ex, st, e["key"], key): return f(st, e)
            if ex.feasible(st, e["key"] == key): maybe.append(e)
        new = z3.And(*[e["key"] != key for e in maybe]) if maybe else T

        def absent(s):
            e = dict(key=key, present=False, node=None, sess=None, old=False)
            s.ghost["map"] = s.ghost["map"] + (e,)
            return f(s, e)

        def present(s):
            e = self.session(s, key)
            s.ghost["map"] = s.ghost["map"] + (e,)
            s.ghost["had"] = s.ghost.get("had", ()) + (key,)
            return f(s, e)
        if any(e["node"] == self.it for e in maybe): raise Unsupported("lookup inside an iteration")
        free = ex.fresh("present", 1)
        return osm.alts(ex, st, [(e["key"] == key, (lambda s, e=e: f(s, e))) for e in maybe] + [(z3.And(new, free), present), (z3.And(new, z3.Not(free)), absent)])

    def upd(self, s, e, **d):
        n = {**e, **d}
        s.ghost["map"] = tuple(n if x["key"] is e["key"] else x for x in s.ghost["map"])
        return n

    def put(self, s, key, value):
        """a new entry; value: pointer to the value to copy, or None"""
        ex = self.ex
        n = self.new_node(s, key)
        if value is None:
            for o in (8, 16, 24): ex.store_cell(s, n, o, 8, NULL)
            sess = 0
        elif self.kind == "server":
            v = sptr.get(ex, s, value)
            ex.store_cell(s, n, 8, 8, v)
            ex.store_cell(s, n, 16, 8, NULL)
            sess = v.r
        else:
            ex.store_cell(s, n, 8, 4, ex.load(s, value, _IntTy(32)))
            v = sptr.get(ex, s, Ptr(value.r, add64(value.off, 8)))
            ex.store_cell(s, n, 16, 8, v)
            ex.store_cell(s, n, 24, 8, NULL)
            sess = v.r
        e = dict(key=key, present=True, node=n, sess=sess, old=False)
        s.ghost["map"] = tuple(x for x in s.ghost["map"] if not x["key"] is key and not x["key"].eq(key)) + (e,)
        return e

    def insert(self, ex, st, a, I):
        q = ex.resolve(st, a[1])
        key = ex.load(st, q, _IntTy(32))

        def go(s, e):
            if e["present"]: return (Ptr(e["node"], 0), bv(0, 8))
            e = self.put(s, e["key"], Ptr(q.r, add64(q.off, 8)))
            rec(s, "insert", e["key"], e["sess"])
            return (Ptr(e["node"], 0), bv(1, 8))
        return self.find(st, key, go)

    def drop(self, s, e, I):
        if self.kind == "server" and e["sess"]:
            self.ob(s, "a session is given up only when its connection is closed", z3.And(self.sfld(s, e["sess"], "m_upState") == CLOSED, self.cl(s, self.sclient(s, e["sess"]))["state"] == CLOSED), "callee precondition", I.line)
        self.upd(s, e, present=False)
        rec(s, "erase", e["key"], e["sess"])

    def entry_of(self, st, p, I):
        q = self.ex.resolve(st, p)
        if q.r == self.it:
            if st.ghost["iter"] not in ("at",): raise Unsupported("an iterator used before it was compared with the end")
            for e in st.ghost["map"]:
                if e.get("cur"): return e
        for e in st.ghost["map"]:
            if e["node"] == q.r:
                self.ob(st, "only an element of the map is used", e["present"], "memory", I.line)
                return e
        self.ob(st, "the end of the map is not an element", F, "memory", I.line)
        raise PathEnd()

    def deref(self, ex, st, a, I): return Ptr(self.entry_of(st, ex.load(st, a[0], _PtrTy()), I)["node"], 0)

    def erase_it(self, ex, st, a, I):
        x = a[1] if isinstance(a[1], Ptr) and (a[1].r in (self.it, self.end) or any(e["node"] == a[1].r for e in st.ghost["map"])) else ex.load(st, a[1], _PtrTy())
        e = self.entry_of(st, x, I)
        self.drop(st, e, I)
        if x.r == self.it: st.ghost["iter"] = "next"
        return Ptr(self.it, 0)

    def advance(self, ex, st, a, I):
        x = ex.load(st, a[0], _PtrTy())
        if x.r != self.it: raise Unsupported("++ on a found element")
        e = self.entry_of(st, x, I)
        self.ob(st, "an iterator is advanced while its element exists", e["present"], "memory", I.line)
        st.ghost["iter"] = "next"
        return Ptr(e["node"], 0) if "(int)" in ex.m.dem[I.extra.val] else a[0]

    def it_cmp(self, ex, st, a, I):
        x, y = (ex.load(st, p, _PtrTy()) for p in a[:2])
        neg = "operator!=" in ex.m.dem[I.extra.val]
        if self.it not in (x.r, y.r) or self.end not in (x.r, y.r):
            e = B(x.r == y.r)
            return z3.Not(e) if neg else e
        more = ex.fresh("more", 1)

        def yes(s):
            key = ex.fresh("key", 32)
            e = self.session(s, key)
            e["cur"] = True
            s.ghost["map"], s.ghost["iter"] = (e,), "at"
            s.ghost["visited"] = e
            return T if neg else F

        def no(s):
            s.ghost["map"], s.ghost["iter"] = (), "end"
            return F if neg else T
        return osm.alts(ex, st, [(more, yes), (z3.Not(more), no)])

    def clear(self, ex, st, a, I):
        self.ob(st, "sessions that may still work are not given up", self.kind != "server", "callee precondition", I.line)

    def make_session(self, ex, st, a, I):
        r = ex.new_reg(st, "session", "cells", self.L.sizeof("RelaySession")).id
        ex.store(st, a[0], Ptr(r, 0), 8, I.line)
        ctor = [d for d in self.M.bydem if re.match(r"^RelaySession::RelaySession\(int\)$", d)]
        rec(st, "session", r)
        return Enter(ctor[0], [Ptr(r, 0), ex.load(st, a[1], _IntTy(32))])

    def make_client(self, ex, st, a, I):
        c = self.client(st, "upclient", ex.load(st, a[3], _IntTy(32)) if len(a) > 3 else bv(0, 32), bv(CLOSED, 32))
        rec(st, "client", c, ex.load(st, a[1], _PtrTy()), ex.load(st, a[2], _PtrTy()))
        ex.store(st, a[0], Ptr(c, 0), 8, I.line)

    def make_pipe(self, ex, st, a, I): raise Unsupported("RelayPipe")

    def connect(self, ex, st, a, I):
        c = self.who(st, a[0])
        self.ob(st, "only a client that is not connected is connected", self.cl(st, a[0])["state"] == CLOSED, "callee precondition", I.line)
        ok = ex.fresh("connect", 1)

        def go(s, r):
            self.cl_upd(s, c, state=bv(CONNECTING if r else CLOSED, 32))
            rec(s, "connect", c, self.who(s, a[1]), ex.resolve(s, a[1]).off, r)
            return T if r else F
        return osm.alts(ex, st, [(ok, lambda s: go(s, True)), (z3.Not(ok), lambda s: go(s, False))])

    def disconnect(self, ex, st, a, I):
        c = self.who(st, a[0])
        if c not in st.ghost["cl"]:
            self.ob(st, "only a client that exists is disconnected", F, "memory", I.line)
            raise PathEnd()
        y = self.cl(st, c)["state"]
        rec(st, "disconnect", c)
        e = next((e for e in st.ghost["map"] if e["present"] and e["sess"] and self.kind == "server" and self.sclient(st, e["sess"]) == c), None)
        if e: self.ob(st, "a session is marked as closing before its connection is closed", self.sfld(st, e["sess"], "m_upState") == CLOSING, "callee precondition", I.line)

        def closed(s):                         # the close callback runs at once
            self.cl_upd(s, c, state=bv(CLOSED, 32))
            self.on_closed(s, c, e, I)
        return osm.alts(ex, st, [(y == CONNECTED, closed), (z3.And(y == CONNECTED, ex.fresh("pending", 1)), lambda s: self.cl_upd(s, c, state=bv(CLOSING, 32))),
                                 (y == CONNECTING, lambda s: self.cl_upd(s, c, state=bv(CLOSED, 32))), (z3.Or(y == CLOSING, y == CLOSED), lambda s: None)])

    def on_closed(self, s, c, e, I):
        """the contract of the close callback, for a session that is closing"""
        if e and next(x for x in s.ghost["map"] if x["key"] is e["key"])["present"]:
            self.ex.store_cell(s, e["sess"], self.L.off("RelaySession", "m_upState", SF["server"]), 4, bv(CLOSED, 32))
            self.drop(s, e, I)

    def sessions_ok(self, s):
        if self.kind != "server": return
        for e in s.ghost["map"]:
            if e["present"]: self.ob(s, "the state kept of a session agrees with its connection", self.sinv(self.sfld(s, e["sess"], "m_upState"), self.cl(s, self.sclient(s, e["sess"]))["state"]), "invariant")

    # ---- frames, as terms over the bytes v0 before the round
    def frame(self, v0):
        V = v0.sel
        return dict(V=V, size=z3.ZeroExt(48, be(V, 0)), id=be(V, 2), n=z3.ZeroExt(48, be(V, 0)) + 4, sid=le(V, 4, 4), fsz=le(V, 8, 4))

    def whole(self, v0): return z3.And(z3.UGE(v0.size, bv(4)), z3.UGE(v0.size, self.frame(v0)["n"]))

    def is_close(self, t, key): return z3.And(t[3] == 8, be(t[2], 0) == 4, be(t[2], 2) == CLOSE, le(t[2], 4, 4) == key)


class Again(Exception): pass


class Loop:
    """a loop decided by one arbitrary round; local variables that a round changes are arbitrary when it begins"""
    vary = {}

    def __init__(self, c): self.c = c

    def enter(self, ex, st, hdr, phis):
        fr, c = st.frames[-1], self.c
        self.key = (fr.fn.dem, fr.fn.blocks.index(hdr))
        cells = [(r, o, v) for k in Loop.vary.get(self.key, ()) for r in [fr.allocas[k]] for o, (v, n) in st.mem[r].cells.items() if z3.is_expr(v) and not z3.is_bool(v) and n == 8]
        self.kept = []
        keep = self.before(ex, st, phis, cells)
        for I in phis: phis[I] = keep(I) if keep and keep(I) is not None else ex.fresh_of(I.ty, "loop")
        for k in Loop.vary.get(self.key, ()):
            w = st.wreg(fr.allocas[k])
            for o, (v, n) in list(w.cells.items()):
                if isinstance(v, (Ptr, FnPtr)): del w.cells[o]
                else: w.cells[o] = (self.now(st) if (w.id, o) in self.kept else ex.fresh("local", 8 * n), n)
        st.ghost["pk"] = {k: None if k[0] in fr.allocas else v for k, v in st.ghost["pk"].items()}
        return dict(mem=dict(st.mem), fr=list(fr.allocas))

    def back(self, ex, st, hdr, phis, sv):
        c, line = self.c, hdr.insts[-1].line
        ch = changed_regions(st, sv["mem"])
        al = [k for k, r in enumerate(sv["fr"]) if r in ch and k not in Loop.vary.get(self.key, ())]
        if al:
            Loop.vary[self.key] = set(Loop.vary.get(self.key, ())) | set(al)
            raise Again()
        bad = [r for r in ch if r not in sv["fr"] and r not in self.own()]
        if bad: raise Unsupported("a round changes other objects: " + ", ".join(st.mem[r].name for r in bad))
        self.after(ex, st, phis, line)


def again(body):
    def run(v):
        Loop.vary.clear()
        for _ in range(8):
            try: return body(v)
            except Again:
                v.res.obls.clear()
                v.execs.clear()
        raise Unsupported("the variables a loop changes are not settled")
    return run


class Rounds(Loop):
    """a message loop: one arbitrary round, from any state of the pipe"""
    def own(self): return {self.c.pipe, *self.c.rb_of.values(), self.c.enc, self.c.dec}
    def before(self, ex, st, phis, cells): self.c.arbitrary(st)
    def after(self, ex, st, phis, line): self.c.round(st, True, line)


class Each:
    """a loop over the sessions: one arbitrary session"""
    def __init__(self, c): self.c = c

    def enter(self, ex, st, hdr, phis):
        for I, v in phis.items():
            if not (isinstance(v, Ptr) and v.r == self.c.it): phis[I] = ex.fresh_of(I.ty, "loop")
        st.ghost["iter"] = "before"
        st.ghost["mark"] = len(st.trace)
        return True

    def back(self, ex, st, hdr, phis, sv):
        c, e = self.c, st.ghost["visited"]
        t = st.trace[st.ghost["mark"]:]
        line = hdr.insts[-1].line
        c.ob(st, "the next session is the one that follows", st.ghost["iter"] == "next" and all(v.r == c.it for v in phis.values() if isinstance(v, Ptr)), "loop invariant", line)
        x, y = c.sfld(st, e["sess"], "m_upState"), c.cl(st, c.sclient(st, e["sess"]))["state"]
        left = next((z["present"] for z in st.ghost["map"] if z["key"] is e["key"]), False)
        c.ob(st, "every session is told to close", any(z[0] == "disconnect" and z[1] == c.sclient(st, e["sess"]) for z in t), "loop invariant", line)
        c.ob(st, "every session is closing, or closed and given up", z3.And(x == CLOSING, y == CLOSING) if left else z3.And(x == CLOSED, y == CLOSED), "loop invariant", line)
        c.ob(st, "nothing is sent for a session that ends with the pipe", not any(z[0] == "send" for z in t), "loop invariant", line)


class Drain(Loop):
    """a loop that packs what is buffered: one arbitrary packet"""
    def own(self): return {*self.c.rb_of.values()}

    def now(self, st): return self.c.view(st, self.c.src).size

    def before(self, ex, st, phis, cells):
        c = self.c
        n = self.now(st)
        self.kept = [(r, o) for r, o, v in cells if ex.valid(st, v == n)]
        self.sizes = [I for I, v in phis.items() if z3.is_expr(v) and not z3.is_bool(v) and v.size() == 64 and ex.valid(st, v == n)]
        c.refill(st)
        n = c.view(st, c.src).size
        return lambda I: n if I in self.sizes else None

    def after(self, ex, st, phis, line):
        c = self.c
        for r, o in self.kept: c.ob(st, "the number of bytes that are left is kept right", st.mem[r].cells[o][0] == self.now(st), "loop invariant", line)
        for I in self.sizes: c.ob(st, "the number of bytes that are left is kept right", phis[I] == c.view(st, c.src).size, "loop invariant", line)
        c.packed(st, True, line)


class Pipe(R):
    """one pipe of relay_local or relay_server"""
    def __init__(self, v, name, kind):
        super().__init__(v, name, kind)
        ex, st, L = self.ex, self.st, self.L
        self.cls = "RelayLocal" if kind == "local" else "RelayServer"
        self.PO = {f: L.off(self.cls + "::RelayPipe", f, PK[kind]) for f in PK[kind]}
        self.CO = {f: L.off(self.cls, f, CF[kind]) for f in CF[kind]}
        self.this = ex.new_reg(st, "relay", "cells", L.sizeof(self.cls)).id
        self.pipe = ex.new_reg(st, "pipe", "cells", L.sizeof(self.cls + "::RelayPipe")).id
        self.E = ex.fresh("encrypted", 8)
        st.assume(z3.ULE(self.E, 1))
        ex.store_cell(st, self.this, self.CO["m_encryptMode"], 1, self.E)
        self.E = self.E == 1
        ex.store_cell(st, self.this, self.CO["m_downServer"], 8, Ptr(self.srv, 0))
        ex.store_cell(st, self.this, L.off(self.cls, "m_enable_statistics", CF[kind] + ["m_enable_statistics"]), 1, ex.fresh("statistics", 8) & 1)
        self.peer = self.conn(st, "peer")                       # the connection to the other relay
        self.sf = "m_upState" if kind == "local" else "m_downState"
        self.WAIT, self.OPEN = (1, 2)
        self.idx = ex.fresh("index", 32)
        st.assume(self.idx >= 0)
        if kind == "local":
            self.up = self.client(st, "up", self.idx, ex.fresh("upstate", 32))
            st.ghost["cn"] = {**st.ghost["cn"], self.peer: {**st.ghost["cn"][self.peer], "id": self.idx}}
            self.link = self.up
            ex.store_cell(st, self.pipe, self.PO["m_upClient"], 8, Ptr(self.up, 0))
            ex.store_cell(st, self.pipe, self.PO["m_upClient"] + 8, 8, NULL)
            w = ex.new_reg(st, "slot", "cells", 8)
            ex.store_cell(st, w.id, 0, 8, Ptr(self.pipe, 0))
            self.slot = w.id
        else:
            self.link = self.peer
            ex.store_cell(st, self.pipe, self.PO["m_downConnection"], 8, Ptr(self.peer, 0))
            ex.store_cell(st, self.pipe, self.PO["m_downConnection"] + 8, 8, NULL)
            ex.store_cell(st, self.pipe, self.PO["m_looper"], 8, Ptr(self.looper, 0))
            ex.store_cell(st, self.pipe, self.PO["m_workthread_index"], 4, self.idx)
        self.arbitrary(st)

    def preload(self, st, key, x=None, y=None):
        """the session of this key exists"""
        e = self.session(st, key)
        st.ghost["map"] = (e,)
        if self.kind == "server":
            for v, f in ((x, lambda: self.sfld(st, e["sess"], "m_upState")), (y, lambda: self.cl(st, self.sclient(st, e["sess"]))["state"])):
                if v is not None: st.assume(z3.Or(*[f() == k for k in v]))
            st.assume(z3.Implies(self.fld(st, self.sf) != self.OPEN, self.sfld(st, e["sess"], "m_upState") == CLOSING))
        return e

    def absent(self, st, key): st.ghost["map"] = (dict(key=key, present=False, node=None, sess=None, old=False),)
    def present(self, s, key): return next((e for e in s.ghost["map"] if e["present"] and osm.same(self.ex, s, e["key"], key)), None)

    # ---- a loop that packs what a session sent
    def source(self, st, c, key):
        x, _, keys = st.ghost["tok"]
        self.src, self.sid = c, key
        st.trace = []
        st.ghost["tok"] = (x, self.view(st, c), keys)
        st.ghost["drain"] = False

    def refill(self, st):
        x, v0, keys = st.ghost["tok"]
        g, i = self.view(st, self.src), self.ex.fresh("i")
        self.ob(st, "nothing is sent or taken before the first packet is made", z3.And(B(not st.trace), g.size == v0.size, z3.Implies(z3.ULT(i, g.size), g.sel(i) == v0.sel(i))), "loop invariant")
        n, f = self.ex.fresh("rbsize"), z3.Function(f"rb!{next(self.ex.fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(8))
        st.assume(z3.ULT(n, bv(1 << 31)))
        rb.set_pure(st, self.rb_of[self.src], 0, rb.View(n, lambda i: f(b64(i)), bv(1 << 40)))
        st.ghost["tok"] = (x, self.view(st, self.src), keys)
        st.ghost["drain"] = True

    def packed(self, s, back, line=None):
        x, v0, keys = s.ghost["tok"]
        ob = lambda what, g, z=s: self.ob(z, what, g, line=line)
        W = of(s, "send")
        ob("only frames for the other relay are sent, and nobody is closed", all(t[1] == self.link for t in W) and not of(s, "refuse", "disconnect", "erase", "insert"))
        if not s.ghost["drain"] and not W:
            # the loop was not reached
            x_open = x == self.OPEN
            ob("everything that is buffered is forwarded once the relays have shaken hands", z3.Implies(x_open, v0.size == 0))
            return
        ob("payload is forwarded only after the handshake", x == self.OPEN)
        if back: ob("every round forwards something", bool(W))
        done = bv(0)
        for t in W:
            V = t[2]
            n = z3.SignExt(32, le(V, 8, 4))
            r = z3.If(self.E, z3.simplify((n + 15) & ~bv(15)), n)
            ob("the frame names the session, and what it carries", z3.And(be(V, 2) == FORWARD, le(V, 4, 4) == self.sid))
            ob("the sizes of the frame fit its bytes", z3.And(z3.ULE(n, bv(0xffff)), z3.UGT(n, 0), t[3] == r + 12, z3.ZeroExt(48, be(V, 0)) == r + 8))
            ob("no more is packed than is buffered", z3.ULE(done + n, v0.size))
            i = self.ex.fresh("i")
            p = s.clone()
            p.assume(z3.And(z3.ULE(n, bv(0xffff)), t[3] == r + 12))
            q = p.clone()
            q.assume(z3.Not(self.E))
            if self.ex.feasible(q): ob("the payload is the next bytes of the session, unchanged", z3.Implies(z3.ULT(i, n), V(z3.simplify(i + 12)) == v0.sel(z3.simplify(done + i))), q)
            q = p.clone()
            q.assume(self.E)
            if self.ex.feasible(q):
                X = of(q, "encrypt")
                k = W.index(t)
                if len(X) <= k: ob("the payload is encrypted", F, q)
                else:
                    X = X[k]
                    ob("the payload is the next bytes of the session, encrypted in whole blocks", z3.And(B(X[1] == self.enc), X[3] == r, z3.Implies(z3.ULT(i, n), X[2](i) == v0.sel(z3.simplify(done + i)))), q)
                    ob("exactly the encrypted bytes are sent", z3.Implies(z3.ULT(i, r), V(z3.simplify(i + 12)) == X[4](i)), q)
            done = z3.simplify(done + n)
        self.rest(s, self.src, v0, done, "exactly the bytes that were packed are taken from the buffer")
        if not back: ob("nothing is left in the buffer", self.view(s, self.src).size == 0)

    def slot_at(self, ex, st, a, I):
        self.ob(st, "the pipe is the work thread's own", a[1] == z3.SignExt(32, self.idx), "callee precondition", I.line)
        return Ptr(self.slot, 0)

    def arbitrary(self, st, state=None):
        """any state of the pipe, anything buffered, any sessions"""
        ex = self.ex
        x = ex.fresh("pipeState", 32) if state is None else bv(state, 32)
        st.assume(x >= 0, x <= 3)
        ex.store_cell(st, self.pipe, self.PO[self.sf], 4, x)
        keys = {}
        for f in ("m_publicKey", "m_privateKey", "m_secretKey"):
            for i in range(2): ex.store_cell(st, self.pipe, self.PO[f] + 8 * i, 8, ex.fresh(f))
            keys[f] = le(rb.ptr_bytes(ex, st, Ptr(self.pipe, self.PO[f])), 0, 16)
        self.enc, self.dec = (ex.new_reg(st, n, "cells", 8).id for n in ("encrypter", "decrypter"))
        for r in (self.enc, self.dec): st.mem[r].heap = True
        # they exist exactly in encrypted mode, after the handshake
        g = st.ghost
        g["rij"] = {self.enc: None, self.dec: None}
        for f, r in (("m_encrypt", self.enc), ("m_decrypt", self.dec)): ex.store_cell(st, self.pipe, self.PO[f], 8, Ptr(r, 0))
        n, f = ex.fresh("rbsize"), z3.Function(f"rb!{next(ex.fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(8))
        st.assume(z3.ULT(n, bv(1 << 31)))
        rb.set_pure(st, self.rb_of[self.peer], 0, rb.View(n, lambda i: f(b64(i)), bv(1 << 40)))
        g["map"], g["iter"], g["had"] = (), None, ()
        st.trace = []
        g["tok"] = (x, self.view(st, self.peer), keys)

    def crypt(self, ex, st, a, I):
        if self.who(st, a[0]) in (self.enc, self.dec):
            self.ob(st, "a cipher is used only in encrypted mode, after the handshake", z3.And(self.E, st.ghost["tok"][0] == self.OPEN), "callee precondition", I.line)
        super().crypt(ex, st, a, I)

    def fld(self, s, f, n=4): return self.ex.load(s, Ptr(self.pipe, self.PO[f]), _IntTy(32) if n == 4 else _PtrTy())

    def on_closed(self, s, c, e, I):
        if self.kind == "local" and c == self.up:
            self.ex.store_cell(s, self.pipe, self.PO["m_upClient"], 8, NULL)
            self.ex.store_cell(s, self.pipe, self.PO["m_upState"], 4, bv(3, 32))
        else: super().on_closed(s, c, e, I)

    def refused(self, s): return any(t[1] == self.peer for t in of(s, "refuse")) if self.kind == "server" else any(t[1] == self.up for t in of(s, "disconnect"))

    def to_sessions(self, s): return [t for t in of(s, "send") if t[1] != self.link]
    def to_peer(self, s): return [t for t in of(s, "send") if t[1] == self.link]

    # ---- one round of the message loop
    def round(self, s, back, line=None):
        x, v0, keys = s.ghost["tok"]
        f, full, now = self.frame(v0), self.whole(v0), self.fld(s, self.sf)
        S, P, ref = self.to_sessions(s), self.to_peer(s), self.refused(s)
        ob = lambda what, g: self.ob(s, what, g, line=line)
        size, fid, V, n = f["size"], f["id"], f["V"], f["n"]
        hs, up = x == self.WAIT, x == self.OPEN
        got = self.view(s, self.peer).size
        if back:
            ob("a further round begins only when a frame was taken, and the relay still listens", z3.And(full, z3.Not(B(ref)), now == self.OPEN))
        for t in of(s, "refuse") if self.kind == "server" else []: ob("no other connection is refused", t[1] == self.peer)
        ob("a refused relay is not listened to any more", z3.Implies(B(ref), z3.And(now != self.WAIT, now != self.OPEN, z3.Not(B(back)), B(not S and not P))))
        ob("nothing happens before the handshake, or after the relay was refused or closed", z3.Implies(z3.Not(z3.Or(hs, up)), z3.And(B(not s.trace), got == v0.size, now == x)))
        wait = z3.And(z3.Or(hs, up), z3.Not(full))
        ob("a frame that is not complete is waited for, unless it is refused already", z3.Implies(wait, z3.And(B(not S and not P and not of(s, "frame")), got == v0.size, z3.Or(B(ref), now == x))))
        a = s.clone()
        a.assume(full)
        a.assume(z3.Or(hs, up))
        if not ref and self.ex.feasible(a): self.rest(a, self.peer, v0, n, "exactly one frame is consumed")
        # handshake
        zero = z3.And(le(V, 4, 8) == 0, le(V, 12, 8) == 0)
        fits = z3.And(fid == HANDSHAKE, size == 16, self.E == z3.Not(zero))
        ob("a handshake of the same mode is accepted", z3.Implies(z3.And(hs, full, fits), z3.And(now == self.OPEN, B(not ref), B(len(P) == (1 if self.kind == "server" else 0) and not S))))
        ob("anything else that comes before the handshake is refused", z3.Implies(z3.And(hs, full, z3.Not(fits)), B(ref)))
        ob("an incomplete handshake is refused only if it is none", z3.Implies(z3.And(hs, z3.Not(full), B(ref)), z3.And(z3.UGE(v0.size, bv(4)), fid != HANDSHAKE)))
        h = s.clone()
        h.assume(z3.And(hs, now == self.OPEN))
        if self.ex.feasible(h):
            for t in P: self.ob(h, "the reply carries the own public key", z3.And(t[3] == 20, be(t[2], 0) == 16, be(t[2], 2) == HANDSHAKE, le(t[2], 4, 16) == keys["m_publicKey"]), line=line)
            K, R_ = of(h, "secret"), h.ghost["rij"]
            e, d = self.fld(h, "m_encrypt", 8), self.fld(h, "m_decrypt", 8)
            ok = F
            if K and isinstance(e, Ptr) and isinstance(d, Ptr) and R_.get(e.r) is not None and R_.get(d.r) is not None:
                ok = z3.And(K[-1][1] == keys["m_privateKey"], K[-1][2] == le(V, 4, 16), R_[e.r] == K[-1][3], R_[d.r] == K[-1][3])
            self.ob(h, "both ciphers use the secret made of the own private key and the other's public key", z3.Implies(self.E, ok), line=line)
        # frames of the sessions
        sid, fsz = f["sid"], f["fsz"]
        pay = size - 8
        good = z3.And(z3.UGE(size, bv(8)), fsz >= 0, z3.ULE(z3.SignExt(32, fsz), pay), z3.Implies(self.E, z3.URem(pay, bv(16)) == 0))
        fw, cl = z3.And(up, full, fid == FORWARD), z3.And(up, full, fid == CLOSE)
        look = next((e for e in s.ghost["map"] if osm.same(self.ex, s, e["key"], sid)), None)
        ob("a frame whose sizes do not fit is refused, and nothing of it is forwarded", z3.Implies(z3.And(fw, z3.Not(good)), B(ref and not S and not P)))
        ob("payload is forwarded only for a frame that carries it", z3.Implies(B(bool(S)), z3.And(fw, good)))
        ob("a frame that fits is not refused", z3.Implies(z3.And(fw, good), B(not ref)))
        ok = s.clone()
        ok.assume(z3.And(fw, good))
        if not ref and self.ex.feasible(ok):
            live = look is not None and (self.was(look) if self.kind == "server" else look["old"])
            i = self.ex.fresh("i")
            for z in [T] if live is False or live is True else [live, z3.Not(live)]:
                q = ok.clone()
                q.assume(z)
                if not self.ex.feasible(q): continue
                alive = live is True or (z is live and live is not False)
                oq = lambda what, g: self.ob(q, what, g, line=line)
                if alive:
                    oq("the payload goes to the session the frame names, once, and nobody else gets anything", len(S) == 1 and not P and S[0][1] == self.target(look))
                    if len(S) == 1:
                        t, D = S[0], of(q, "decrypt")
                        p = q.clone()
                        p.assume(z3.Not(self.E))
                        if self.ex.feasible(p): self.ob(p, "exactly the bytes of the frame are forwarded", z3.And(t[3] == z3.SignExt(32, fsz), z3.Implies(z3.ULT(i, t[3]), t[2](i) == V(z3.simplify(i + 12)))), line=line)
                        p = q.clone()
                        p.assume(self.E)
                        if self.ex.feasible(p):
                            self.ob(p, "the payload is decrypted once, whole", z3.And(B(len(D) == 1), B(bool(D) and D[0][1] == self.dec)) if not D else z3.And(B(len(D) == 1 and D[0][1] == self.dec), D[0][3] == pay, z3.Implies(z3.ULT(i, D[0][3]), D[0][2](i) == V(z3.simplify(i + 12)))), line=line)
                            if D: self.ob(p, "exactly the decrypted bytes are forwarded", z3.And(t[3] == z3.SignExt(32, fsz), z3.Implies(z3.ULT(i, t[3]), t[2](i) == D[0][4](i))), line=line)
                    if not of(q, "erase", "insert", "disconnect"): self.ob(q, "the session stays", self.there(q, look), line=line)
                    else: oq("forwarding does not change the sessions", F)
                else:
                    oq("a frame of a session that is gone is answered by closing it", z3.And(B(not S and len(P) == 1), self.is_close(P[0], sid)) if P else F)
                    oq("a session that is gone is not in the map", look is None or not self.there(q, look))
                oq("no session is closed or made", not of(q, "insert", "disconnect", "refuse"))
        # close
        okc = z3.And(cl, size == 4)
        ob("a close frame of another size is refused", z3.Implies(z3.And(cl, size != 4), B(ref)))
        ob("a close frame is not refused, and forwards nothing", z3.Implies(okc, B(not S and not P and (not ref))))
        p = s.clone()
        p.assume(okc)
        if not ref and self.ex.feasible(p):
            others = [t for t in (of(p, "disconnect") if self.kind == "server" else of(p, "refuse")) if look is None or t[1] != self.target(look)]
            self.ob(p, "only the session named is closed", not others and not of(p, "insert") and (look is None or look["old"] or not (of(p, "disconnect", "refuse", "erase"))), line=line)
            if look is not None and look["old"]: self.ob(p, "the session named is closed", self.closed(p, look), line=line)
        self.more(s, back, x, v0, f, full, S, P, ref, look, ob, line)
        self.sessions_ok(s)


class Local(Pipe):
    def __init__(self, v, name): super().__init__(v, name, "local")
    def refused(self, s): return any(t[1] == self.up for t in of(s, "disconnect"))
    def target(self, e): return e["sess"]
    def there(self, s, e): return any(z["key"] is e["key"] and z["present"] for z in s.ghost["map"])
    def closed(self, s, e): return not self.there(s, e) and any(t[1] == e["sess"] for t in of(s, "refuse"))

    def more(self, s, back, x, v0, f, full, S, P, ref, look, ob, line):
        up = x == self.OPEN
        ob("a frame of an unknown kind is refused", z3.Implies(z3.And(up, full, f["id"] != FORWARD, f["id"] != CLOSE), B(ref)))
        ob("an incomplete frame is refused only if its kind is unknown", z3.Implies(z3.And(up, z3.Not(full), B(ref)), z3.And(z3.UGE(v0.size, bv(4)), f["id"] != FORWARD, f["id"] != CLOSE)))


class Server(Pipe):
    def __init__(self, v, name): super().__init__(v, name, "server")

    def was(self, e):
        """the session existed, and its connection was not known to be gone"""
        return False if not e["old"] else e["state0"] != CLOSED

    def session(self, s, key):
        e = super().session(s, key)
        e["state0"] = self.sfld(s, e["sess"], "m_upState")
        return e

    def target(self, e): return e["client"] if "client" in e else self.sclient(self.last, e["sess"])
    def there(self, s, e): return any(z["key"] is e["key"] and z["present"] for z in s.ghost["map"])

    def closed(self, s, e):
        st = self.sfld(s, e["sess"], "m_upState")
        done = any(t[1] == self.sclient(s, e["sess"]) for t in of(s, "disconnect"))
        return z3.Or(B(not self.there(s, e)), z3.And(B(done), st == CLOSING))

    def round(self, s, back, line=None):
        self.last = s
        super().round(s, back, line)

    def more(self, s, back, x, v0, f, full, S, P, ref, look, ob, line):
        up = x == self.OPEN
        new = z3.And(up, full, f["id"] == NEW)
        known = z3.Or(f["id"] == NEW, f["id"] == FORWARD, f["id"] == CLOSE)
        ob("a frame of an unknown kind is refused", z3.Implies(z3.And(up, full, z3.Not(known)), B(ref)))
        ob("an incomplete frame is refused only if its kind is unknown", z3.Implies(z3.And(up, z3.Not(full), B(ref)), z3.And(z3.UGE(v0.size, bv(4)), z3.Not(known))))
        ins = of(s, "insert")
        ob("a session is made only by a frame that asks for it", z3.Implies(B(bool(ins)), z3.And(new, f["size"] == 4)))
        ob("a request for a session of another size is refused", z3.Implies(z3.And(new, f["size"] != 4), B(ref)))
        if ref: ob("a request is refused only for its size, or because its id is used", z3.Implies(z3.And(new, f["size"] == 4), B(any(osm.same(self.ex, s, k, f["sid"]) for k in s.ghost.get("had", ())))))
        p = s.clone()
        p.assume(z3.And(new, f["size"] == 4))
        if ref or not self.ex.feasible(p): return
        o = lambda what, g: self.ob(p, what, g, line=line)
        con = of(p, "connect")
        o("one session is made, with the id asked for", z3.And(B(len(ins) == 1), ins[0][1] == f["sid"]) if ins else F)
        o("one connection is made, to the address configured", len(con) == 1 and con[0][2] == self.this and con[0][3] == self.CO["m_upAddress"])
        if len(ins) != 1 or len(con) != 1: return
        r, c = ins[0][2], con[0][1]
        o("the session keeps its id and its own connection", z3.And(self.sfld(p, r, "m_id") == f["sid"], B(self.sclient(p, r) == c), self.cl(p, c)["id"] == f["sid"]))
        mk = of(p, "client")
        o("the connection belongs to the pipe", len(mk) == 1 and mk[0][1] == c and mk[0][2].r == self.looper and mk[0][3].r == self.pipe)
        lo = self.L.off("cyclone::TcpClient", "m_listener", ["m_listener"])
        for k, (nm, cb) in enumerate(zip(LIS, ("onServerConnected", "onServerMessage", "onServerClose"))):
            t = stdfn.get(p, Ptr(c, lo + 32 * k))
            o(f"the connection's {nm} callback is {cb}", cb in str(t))
        if con[0][4]: o("the session is in the map while it connects", any(e["present"] and e["sess"] == r for e in p.ghost["map"]) and not P and not S)
        else: o("a session that cannot connect is closed", z3.And(B(len(P) == 1 and not S and not any(e["present"] and e["sess"] == r for e in p.ghost["map"])), self.is_close(P[0], f["sid"])) if P else F)


def loop_ret(c):
    def ret(s, r): c.round(s, False)
    return ret


def t_local_message(v):
    c = Local(v, "RelayLocal::onUpMessage")
    v.cover(c.ex, c.st)
    c.ex.run(c.st, fn(c.M, r"^RelayLocal::onUpMessage\("), [Ptr(c.this, 0), Ptr(c.handle(c.st, c.up), 0), Ptr(c.handle(c.st, c.peer), 0)], loop_ret(c))


def t_server_message(v):
    c = Server(v, "RelayServer::onDownMessage")
    v.cover(c.ex, c.st)
    c.ex.run(c.st, fn(c.M, r"^RelayServer::onDownMessage\("), [Ptr(c.this, 0), Ptr(c.srv, 0), c.idx, Ptr(c.handle(c.st, c.peer), 0)], loop_ret(c))


def t_local_data(v):
    c = Local(v, "RelayLocal::onLocalMessage")
    st, ex = c.st, c.ex
    k = ex.fresh("id", 32)
    d = c.conn(st, "downconn", k)
    c.source(st, d, k)
    v.cover(ex, st)

    def ret(s, r):
        x, v0, _ = s.ghost["tok"]
        if of(s, "refuse"):
            c.ob(s, "a connection is refused only without a handshake, and nothing of it is forwarded", z3.And(x != c.OPEN, B(not of(s, "send") and all(t[1] == d for t in of(s, "refuse")))))
            return
        c.ob(s, "without a handshake the connection is refused", x == c.OPEN)
        c.packed(s, False)
    ex.run(st, fn(c.M, r"^RelayLocal::onLocalMessage\("), [Ptr(c.this, 0), Ptr(c.srv, 0), c.idx, Ptr(c.handle(st, d), 0)], ret)


def t_server_data(v):
    c = Server(v, "RelayServer::onServerMessage")
    st, ex = c.st, c.ex
    k = ex.fresh("id", 32)
    e = c.preload(st, k, (CONNECTED, CLOSING))
    d = c.conn(st, "upconn", k)
    c.source(st, d, k)
    v.cover(ex, st)
    ex.run(st, fn(c.M, r"^RelayServer::onServerMessage\("), [Ptr(c.this, 0), Ptr(c.handle(st, c.sclient(st, e["sess"])), 0), Ptr(c.handle(st, d), 0)], lambda s, r: c.packed(s, False))


def frame_is(c, t, id, key):
    return z3.And(t[3] == 8, be(t[2], 0) == 4, be(t[2], 2) == id, le(t[2], 4, 4) == key, B(t[1] == c.link))


def t_local_connected(v):
    c = Local(v, "RelayLocal::onLocalConnected")
    st, ex = c.st, c.ex
    k = ex.fresh("id", 32)
    d = c.conn(st, "downconn", k)
    c.absent(st, k)
    st.trace = []
    x = st.ghost["tok"][0]
    v.cover(ex, st)

    def ret(s, r):
        W, e = of(s, "send"), c.present(s, k)
        if of(s, "refuse"):
            c.ob(s, "a connection is refused only without a handshake, and no session is made for it", z3.And(x != c.OPEN, B(not W and e is None and all(t[1] == d for t in of(s, "refuse")))))
            return
        c.ob(s, "without a handshake the connection is refused", x == c.OPEN)
        c.ob(s, "the session is kept with its own connection", e is not None and e["sess"] == d and not of(s, "disconnect", "erase"))
        if e: c.ob(s, "the session has the id of its connection", ex.load(s, Ptr(e["node"], 8), _IntTy(32)) == k)
        c.ob(s, "the other relay is told once about the session", frame_is(c, W[0], NEW, k) if len(W) == 1 else F)
    ex.run(st, fn(c.M, r"^RelayLocal::onLocalConnected\("), [Ptr(c.this, 0), Ptr(c.srv, 0), c.idx, Ptr(c.handle(st, d), 0)], ret)


def t_local_close(v):
    c = Local(v, "RelayLocal::onLocalClose")
    st, ex = c.st, c.ex
    k = ex.fresh("id", 32)
    d = c.conn(st, "downconn", k)
    st.trace = []
    x = st.ghost["tok"][0]
    v.cover(ex, st)

    def ret(s, r):
        W = of(s, "send")
        had = any(osm.same(ex, s, z, k) for z in s.ghost["had"])
        c.ob(s, "the session of a closed connection is gone", c.present(s, k) is None and not of(s, "refuse", "disconnect", "insert"))
        c.ob(s, "the other relay is told once, if there was a session", z3.And(B(had), x == c.OPEN, frame_is(c, W[0], CLOSE, k)) if len(W) == 1 else z3.And(B(not W), z3.Or(B(not had), x != c.OPEN)))
    ex.run(st, fn(c.M, r"^RelayLocal::onLocalClose\("), [Ptr(c.this, 0), c.idx, Ptr(c.handle(st, d), 0)], ret)


def t_local_up(v):
    c = Local(v, "RelayLocal::onUpConnected")
    st, ex = c.st, c.ex
    c.arbitrary(st, 0)
    keys = st.ghost["tok"][2]
    ok = ex.fresh("success", 1)
    v.cover(ex, st)
    for good in (True, False):
        s0 = st.clone()

        def ret(s, r, good=good):
            W = of(s, "send")
            if good:
                c.ob(s, "the handshake carries the own public key", z3.And(B(W[0][1] == c.up), W[0][3] == 20, be(W[0][2], 0) == 16, be(W[0][2], 2) == HANDSHAKE, le(W[0][2], 4, 16) == keys["m_publicKey"]) if len(W) == 1 else F)
                c.ob(s, "the handshake of the other relay is waited for", c.fld(s, c.sf) == c.WAIT)
            else: c.ob(s, "a failed connect is tried again later, and changes nothing", z3.And(r != 0, B(not s.trace), c.fld(s, c.sf) == 0))
        ex.run(s0, fn(c.M, r"^RelayLocal::onUpConnected\("), [Ptr(c.this, 0), Ptr(c.handle(s0, c.peer if good else 0), 0), T if good else F], ret)


def t_local_up_close(v):
    c = Local(v, "RelayLocal::onUpClose")
    st, ex = c.st, c.ex
    v.cover(ex, st)

    def ret(s, r):
        c.ob(s, "a relay that is gone is not used any more", z3.And(c.fld(s, c.sf) != c.OPEN, c.fld(s, c.sf) != c.WAIT, B(not of(s, "send"))))
    ex.run(st, fn(c.M, r"^RelayLocal::onUpClose\("), [Ptr(c.this, 0), Ptr(c.handle(st, c.up), 0), Ptr(c.handle(st, c.peer), 0)], ret)


def t_server_connected(v):
    c = Server(v, "RelayServer::onServerConnected")
    st, ex = c.st, c.ex
    k = ex.fresh("id", 32)
    v.cover(ex, st)
    for good in (True, False):
        s0 = st.clone()
        c.arbitrary(s0)
        x = s0.ghost["tok"][0]
        s0.assume(x == c.OPEN)
        e = c.preload(s0, k, (CONNECTING,))
        cli = c.sclient(s0, e["sess"])
        c.cl_upd(s0, cli, state=bv(CONNECTED if good else CLOSED, 32))
        s0.trace = []
        d = c.conn(s0, "upconn", k) if good else 0

        def ret(s, r, good=good, e=e):
            W = of(s, "send")
            if good: c.ob(s, "a session that is connected can be used", z3.And(c.sfld(s, e["sess"], "m_upState") == CONNECTED, B(not W and c.present(s, k) is not None)))
            else:
                c.ob(s, "the other relay is told once that the session could not be connected", frame_is(c, W[0], CLOSE, k) if len(W) == 1 else F)
                c.ob(s, "a session that could not be connected is closed, and not tried again", z3.And(r == 0, z3.Or(B(c.present(s, k) is None), c.sfld(s, e["sess"], "m_upState") == CLOSED)))
            c.ob(s, "nobody else is closed", not of(s, "refuse", "disconnect", "insert"))
            c.sessions_ok(s)
        ex.run(s0, fn(c.M, r"^RelayServer::onServerConnected\("), [Ptr(c.this, 0), Ptr(c.handle(s0, cli), 0), Ptr(c.handle(s0, d), 0), T if good else F], ret)


def t_server_closed(v):
    c = Server(v, "RelayServer::onServerClose")
    st, ex = c.st, c.ex
    k = ex.fresh("id", 32)
    e = c.preload(st, k, (CONNECTED, CLOSING))
    cli = c.sclient(st, e["sess"])
    c.cl_upd(st, cli, state=bv(CLOSED, 32))
    x0 = c.sfld(st, e["sess"], "m_upState")
    d = c.conn(st, "upconn", k)
    st.trace = []
    v.cover(ex, st)

    def ret(s, r):
        W = of(s, "send")
        c.ob(s, "a session whose connection is closed is gone", c.present(s, k) is None)
        c.ob(s, "the other relay is told once, unless it asked for the close", z3.And(x0 == CONNECTED, frame_is(c, W[0], CLOSE, k)) if len(W) == 1 else z3.And(B(not W), x0 == CLOSING))
        c.ob(s, "nobody else is closed", not of(s, "refuse", "disconnect", "insert"))
        c.sessions_ok(s)
    ex.run(st, fn(c.M, r"^RelayServer::onServerClose\("), [Ptr(c.this, 0), Ptr(c.handle(st, cli), 0), Ptr(c.handle(st, d), 0)], ret)


def t_down_close(v):
    c = Server(v, "RelayServer::onDownClose")
    st, ex = c.st, c.ex
    v.cover(ex, st)

    def ret(s, r):
        c.ob(s, "every session of the relay that is gone is closed", s.ghost["iter"] == "end")
        c.ob(s, "the relay that is gone is not used any more", z3.And(B(not of(s, "send")), c.fld(s, c.sf) != c.OPEN, c.fld(s, c.sf) != c.WAIT))
        c.ob(s, "the connection is let go", is_null(sptr.get(ex, s, Ptr(c.pipe, c.PO["m_downConnection"]))))
        for f in ("m_encrypt", "m_decrypt"):
            p = c.fld(s, f, 8)
            c.ob(s, "no cipher that was destroyed is kept", is_null(p) or z3.Implies(c.E, B(s.mem[p.r].alive)))
    ex.run(st, fn(c.M, r"^RelayServer::onDownClose\("), [Ptr(c.this, 0), Ptr(c.srv, 0), c.idx, Ptr(c.handle(st, c.peer), 0)], ret)


def t_down_connected(v):
    c = Server(v, "RelayServer::onDownConnected")
    st, ex = c.st, c.ex
    st.trace = []
    v.cover(ex, st)

    def ret(s, r):
        P = of(s, "set_param")
        c.ob(s, "the connection gets one pipe of its own", len(P) == 1 and P[0][1] == c.peer and isinstance(P[0][2], Ptr) and P[0][2].r != c.pipe)
        if len(P) != 1: return
        q = P[0][2]
        at = lambda f: Ptr(q.r, add64(q.off, c.PO[f]))
        c.ob(s, "the pipe waits for a handshake", ex.load(s, at(c.sf), _IntTy(32)) == c.WAIT)
        c.ob(s, "the pipe answers on its own connection", sptr.get(ex, s, at("m_downConnection")).r == c.peer and ex.load(s, at("m_looper"), _PtrTy()).r == c.looper)
        c.ob(s, "no cipher is used before the handshake", is_null(ex.load(s, at("m_encrypt"), _PtrTy())) and is_null(ex.load(s, at("m_decrypt"), _PtrTy())))
        K, pub = of(s, "pair"), le(rb.ptr_bytes(ex, s, at("m_publicKey")), 0, 16)
        if K: c.ob(s, "a key pair is made only in encrypted mode, for this pipe", z3.And(c.E, pub == le(K[-1][1], 0, 16), le(rb.ptr_bytes(ex, s, at("m_privateKey")), 0, 16) == le(K[-1][2], 0, 16)))
        else: c.ob(s, "without encryption the public key is zero", z3.And(z3.Not(c.E), pub == 0))
        c.ob(s, "nothing is sent yet", not of(s, "send", "refuse", "disconnect"))
    ex.run(st, fn(c.M, r"^RelayServer::onDownConnected\("), [Ptr(c.this, 0), Ptr(c.srv, 0), c.idx, Ptr(c.handle(st, c.peer), 0)], ret)


class Duplex(R):
    """relay_pipe: two connections, joined"""
    def __init__(self, v, name):
        super().__init__(v, name, "pipe")
        st, ex = self.st, self.ex
        self.c = [self.conn(st, f"port{i}") for i in (1, 2)]
        self.cli = [self.client(st, f"client{i}", bv(0, 32), bv(CONNECTED, 32)) for i in (1, 2)]
        self.rp = ex.new_reg(st, "pipe", "cells", self.L.sizeof("RelayPipe")).id

    def joined(self, st):
        for f, r in zip(("m_port1", "m_port2"), self.c): self.hand(st, self.rp, self.L.off("RelayPipe", f, ["m_port1", "m_port2"]), r)

    def hand(self, st, r, o, t):
        self.ex.store_cell(st, r, o, 8, Ptr(t, 0) if t else NULL)
        self.ex.store_cell(st, r, o + 8, 8, NULL)

    def moved(self, s, k, v0):
        """everything buffered at end k went to the other end"""
        W, i = of(s, "send"), self.ex.fresh("i")
        g = self.view(s, self.c[k])
        self.ob(s, "the buffer is emptied, and nothing of it is lost", z3.And(g.size == 0, v0.size == 0 if not W else T))
        self.ob(s, "the bytes go to the other end, once, unchanged, and nowhere else", z3.And(B(len(W) == 1 and W[0][1] == self.c[1 - k]), W[0][3] == v0.size, z3.Implies(z3.ULT(i, v0.size), W[0][2](i) == v0.sel(i))) if W else T)


def pipe_task(cls, meth, end, fields, args):
    def run(v):
        c = Duplex(v, f"{cls}::{meth}")
        st, ex, L = c.st, c.ex, c.L
        this = ex.new_reg(st, "this", "cells", L.sizeof(cls)).id
        for f, r in fields(c): c.hand(st, this, L.off(cls, f, [f]), r)
        po = L.off(cls, "m_pipe", ["m_pipe"])
        c.joined(st)
        v.cover(ex, st)
        for on in (True, False):
            s0 = st.clone()
            c.hand(s0, this, po, c.rp if on else 0)
            V = [c.view(s0, r) for r in c.c]

            def ret(s, r, on=on, V=V):
                if on:
                    if end is None: c.ob(s, "a connection that is not part of the pipe is not forwarded", not of(s, "send"))
                    else: c.moved(s, end, V[end])
                for k in (0, 1):
                    if not on or k != end: c.ob(s, "nothing else is taken", c.view(s, c.c[k]).size == V[k].size)
                if not on: c.ob(s, "nothing is forwarded before both ends are there", not of(s, "send"))
            ex.run(s0, fn(c.M, rf"^{cls}::{meth}\("), [Ptr(this, 0)] + [Ptr(c.handle(s0, r), 0) for r in args(c, s0)], ret)
    return run


def t_pipe_join(v):
    """what arrived at either end before the other was there is forwarded when they are joined"""
    c = Duplex(v, "RelayPipe::RelayPipe")
    st, ex = c.st, c.ex
    for r in c.c: st.assume(st.ghost["cn"][r]["state"] == CONNECTED)
    V = [c.view(st, r) for r in c.c]
    v.cover(ex, st)

    def ret(s, r):
        for k in (0, 1):
            q = s.clone()
            q.trace = [t for t in s.trace if t[0] != "send" or t[1] == c.c[1 - k]]
            c.moved(q, k, V[k])
        for f, r in zip(("m_port1", "m_port2"), c.c): c.ob(s, "the pipe keeps its ends apart", sptr.get(ex, s, Ptr(c.rp, c.L.off("RelayPipe", f, ["m_port1", "m_port2"]))).r == r)
    ex.run(st, fn(c.M, r"^RelayPipe::RelayPipe\("), [Ptr(c.rp, 0)] + [Ptr(c.handle(st, r), 0) for r in c.c], ret)


IN = lambda c: (("m_conn1", c.c[0]), ("m_conn2", c.c[1]))
OUT = lambda c: (("m_client1", c.cli[0]), ("m_client2", c.cli[1]), ("m_connection1", c.c[0]), ("m_connection2", c.c[1]))
IO = lambda c: (("m_client", c.cli[0]), ("m_connIn", c.c[0]), ("m_connOut", c.c[1]))
PIPES = [("RelayPipe_DoubleIn", "onMessage", 0, IN, lambda c, s: [c.c[0]]), ("RelayPipe_DoubleIn", "onMessage", 1, IN, lambda c, s: [c.c[1]]), ("RelayPipe_DoubleIn", "onMessage", None, IN, lambda c, s: [c.conn(s, "other")]),
         ("RelayPipe_DoubleOut", "onMessage", 0, OUT, lambda c, s: [c.cli[0], c.c[0]]), ("RelayPipe_DoubleOut", "onMessage", 1, OUT, lambda c, s: [c.cli[1], c.c[1]]),
         ("RelayPipe_InOut", "onMessageIn", 0, IO, lambda c, s: [c.c[0]]), ("RelayPipe_InOut", "onMessageOut", 1, IO, lambda c, s: [c.cli[0], c.c[1]]), ("RelayPipe_InOut", "onMessageIn", None, IO, lambda c, s: [c.conn(s, "other")])]


class Joins(Duplex):
    """the callbacks that join and part the two ends: which connection is at which end, and when there is a pipe"""
    def __init__(self, v, cls, meth, fields, have):
        super().__init__(v, f"{cls}::{meth}")
        st, ex, L = self.st, self.ex, self.L
        self.this = ex.new_reg(st, "this", "cells", L.sizeof(cls)).id
        got = []
        ctor = [d for d in self.M.bydem if d == f"{cls}::{cls}()" and self.M.has(self.M.bydem[d])]
        if cls.endswith("DoubleOut") and ctor:      # fields the property does not name hold what the constructor gave them
            ex.run(st, ctor[0], [Ptr(self.this, 0)], lambda s, r: got.append(s))
            if len(got) != 1: raise Unsupported("constructor")
            st = self.st = got[0]
        self.off = {f: L.off(cls, f, [f]) for f in [x for x, _ in fields(self)] + ["m_pipe"]}
        self.ends = [x for x, r in fields(self) if r in self.c]
        for f, r in fields(self): self.hand(st, self.this, self.off[f], r if (r in self.c and have[self.c.index(r)]) or (r in self.cli and have[self.cli.index(r)]) or (cls.endswith("InOut") and r in self.cli) else 0)
        self.hand(st, self.this, self.off["m_pipe"], self.rp if all(have) else 0)
        self.pipes = {self.rp}
        for k in (0, 1):
            if have[k]: st.assume(st.ghost["cn"][self.c[k]]["state"] == CONNECTED)
        self.cl_of = (None, self.cli[0]) if cls.endswith("InOut") else (None, None) if cls.endswith("DoubleIn") else self.cli
        for k in (0, 1):
            if self.cl_of[k]: self.cl_upd(st, self.cl_of[k], state=bv(CONNECTED if have[k] else CONNECTING, 32))
        self.ports = [ex.fresh(f"listen{k}", 16) for k in (1, 2)]
        if cls.endswith("DoubleIn"):
            st.assume(self.ports[0] != self.ports[1])
            for k in (0, 1):
                ex.store_cell(st, self.this, L.off(cls, f"m_port{k + 1}", [f"m_port{k + 1}"]), 2, self.ports[k])
                self.port_of(st, self.c[k], self.ports[k])
        st.ghost["joined"] = ()

    def port_of(self, st, r, p): st.ghost["cn"] = {**st.ghost["cn"], r: {**st.ghost["cn"][r], "port": p}}

    def make_pipe(self, ex, st, a, I):
        x = [sptr.get(ex, st, p, I.line).r for p in a[1:3]]
        for r in x:
            if r not in self.rb_of: self.ob(st, "two connections that exist are joined", F, "callee precondition", I.line); raise PathEnd()
            self.ob(st, "only connections that are open are joined", st.ghost["cn"][r]["state"] == CONNECTED, "callee precondition", I.line)
        p = ex.new_reg(st, "newpipe", "cells", self.L.sizeof("RelayPipe")).id
        st.ghost["joined"] += ((p, *x),)
        ex.store(st, a[0], Ptr(p, 0), 8, I.line)

    def at(self, s, f):
        p = sptr.get(self.ex, s, Ptr(self.this, self.off[f]))
        return None if isinstance(p.r, int) and p.r == 0 else p.r

    def same(self, s, want, why):
        for f, r in zip(self.ends, want): self.ob(s, why, self.at(s, f) == r)


def connect_task(cls, meth, k, fields, args):
    """end k gets connected: it is kept there if nothing is there yet, and the two are joined when both are there, in order"""
    def run(v):
        for have in ((0, 0), (1, 0), (0, 1), (1, 1)):
            if have[k] and not meth in ("onConnected", "onConnectedIn") or (have[k] and cls.endswith("DoubleOut")): continue
            for ok in ((True,) if cls.endswith("DoubleIn") or meth == "onConnectedIn" else (True, False)):
                c = Joins(v, cls, meth, fields, have)
                st, ex = c.st, c.ex
                new = c.conn(st, "new", state=bv(CONNECTED, 32)) if ok else 0
                if ok: c.port_of(st, new, c.ports[k])
                was, pipe = [c.c[e] if have[e] else None for e in (0, 1)], c.rp if all(have) else None
                v.cover(ex, st)

                def ret(s, r, c=c, have=have, ok=ok, new=new, was=was, pipe=pipe):
                    J, ref = s.ghost["joined"], [t[1] for t in of(s, "refuse")]
                    if not ok or have[k]:
                        c.same(s, was, "an end that is taken, or an attempt that failed, changes nothing")
                        c.ob(s, "nothing is joined", not J and c.at(s, "m_pipe") == pipe)
                        if ok: c.ob(s, "a connection to an end that is taken is refused", ref == [new])
                        elif r is not None: c.ob(s, "a failed attempt is tried again", r != 0)
                    else:
                        now = [new if e == k else was[e] for e in (0, 1)]
                        c.same(s, now, "the connection is kept at its end, and the other end is not changed")
                        c.ob(s, "the ends are joined, in order, as soon as both are there", [j[1:] for j in J] == ([tuple(now)] if have[1 - k] else []) and c.at(s, "m_pipe") == (J[-1][0] if J else None))
                        c.ob(s, "the connection is not refused", not ref)
                    c.ob(s, "nothing is disconnected", not of(s, "disconnect"))
                ex.run(st, fn(c.M, rf"^{cls}::{meth}\([^)]*\)$"), [Ptr(c.this, 0)] + args(c, st, new, ok, k), ret)
    return run


def close_task(cls, meth, k, fields, args):
    """end k is closed: nothing is forwarded to or from it any more, and the other end does not stay open alone; a connection that was refused disturbs nothing"""
    def run(v):
        for have in ((1, 1), (1, 0), (0, 1)):
            if k is not None and not have[k]: continue
            c = Joins(v, cls, meth, fields, have)
            st, ex = c.st, c.ex
            gone = c.conn(st, "other") if k is None else c.c[k]
            st.ghost["cn"] = {**st.ghost["cn"], gone: {**st.ghost["cn"][gone], "state": bv(CLOSED, 32)}}
            if k is not None and c.cl_of[k]: c.cl_upd(st, c.cl_of[k], state=bv(CLOSED, 32))
            was, pipe = [c.c[e] if have[e] else None for e in (0, 1)], c.rp if all(have) else None
            v.cover(ex, st)

            def ret(s, r, c=c, have=have, gone=gone, was=was, pipe=pipe):
                if k is None:
                    c.same(s, was, "closing a refused connection changes nothing")
                    c.ob(s, "closing a refused connection leaves the pipe alone", c.at(s, "m_pipe") == pipe and not of(s, "disconnect", "refuse", "thread"))
                    return
                c.ob(s, "the pipe of a closed end is given up", c.at(s, "m_pipe") is None)
                c.ob(s, "a closed connection is not kept to be joined later", gone not in [c.at(s, f) for f in c.ends])
                o, W = c.cl_of[1 - k], of(s, "thread")
                if o and have == (1, 1):
                    y = s.ghost["cl"][o]["state"]
                    if cls.endswith("DoubleOut") and not W:        # the other end follows
                        q = s.clone()
                        c.cl_upd(q, o, state=bv(CLOSED, 32))
                        q.ghost["cn"] = {**q.ghost["cn"], c.c[1 - k]: {**q.ghost["cn"][c.c[1 - k]], "state": bv(CLOSED, 32)}}

                        def end(s2, r2):
                            c.ob(s2, "the program is ended, once, when both ends are closed", len(of(s2, "thread")) == 1)
                            c.ob(s2, "no end is kept", all(c.at(s2, f) is None for f in c.ends + ["m_pipe"]))
                        ex.run(q, fn(c.M, rf"^{cls}::{meth}\([^)]*\)$"), [Ptr(c.this, 0)] + args(c, q, c.c[1 - k], 1 - k), end)
                    c.ob(s, "a client is not released before its last bytes are sent", z3.Or(y == CLOSED, B(not W) if cls.endswith("DoubleOut") else B(c.at(s, "m_client") == o)))
                if have == (1, 1): c.ob(s, "the other end does not stay open alone", bool(of(s, "thread")) or c.cl_of[1 - k] in [t[1] for t in of(s, "disconnect")])
            ex.run(st, fn(c.M, rf"^{cls}::{meth}\([^)]*\)$"), [Ptr(c.this, 0)] + args(c, st, gone, k), ret)
    return run


P0 = lambda c, s, r: Ptr(c.handle(s, r), 0)
JOINS = [("RelayPipe_DoubleIn", "onConnected", k, IN, lambda c, s, n, ok, k: [Ptr(c.srv, 0), P0(c, s, n)]) for k in (0, 1)] + \
        [("RelayPipe_DoubleOut", "onConnected", k, OUT, lambda c, s, n, ok, k: [P0(c, s, c.cli[k]), P0(c, s, n), T if ok else F, bv(k + 1, 32)]) for k in (0, 1)] + \
        [("RelayPipe_InOut", "onConnectedIn", 0, IO, lambda c, s, n, ok, k: [Ptr(c.srv, 0), P0(c, s, n)]), ("RelayPipe_InOut", "onConnectedOut", 1, IO, lambda c, s, n, ok, k: [P0(c, s, n), T if ok else F])]
PARTS = [("RelayPipe_DoubleIn", "onClose", k, IN, lambda c, s, g, k: [Ptr(c.srv, 0), P0(c, s, g)]) for k in (0, 1, None)] + \
        [("RelayPipe_DoubleOut", "onClose", k, OUT, lambda c, s, g, k: [P0(c, s, c.cli[k])]) for k in (0, 1)] + \
        [("RelayPipe_InOut", "onCloseIn", k, IO, lambda c, s, g, k: [P0(c, s, g)]) for k in (0, None)] + [("RelayPipe_InOut", "onCloseOut", 1, IO, lambda c, s, g, k: [])]


def tasks(tier):
    return [(n, again(f)) for n, f in all_tasks()]


def all_tasks():
    return [("local: onUpMessage", t_local_message), ("server: onDownMessage", t_server_message), ("local: onLocalMessage", t_local_data), ("server: onServerMessage", t_server_data),
            ("local: onLocalConnected", t_local_connected), ("local: onLocalClose", t_local_close), ("local: onUpConnected", t_local_up), ("local: onUpClose", t_local_up_close),
            ("server: onServerConnected", t_server_connected), ("server: onServerClose", t_server_closed), ("server: onDownConnected", t_down_connected), ("server: onDownClose", t_down_close),
            ("pipe: join", t_pipe_join)] + [(f"pipe: {a} {b} {'other' if e is None else e + 1}", pipe_task(a, b, e, f, g)) for a, b, e, f, g in PIPES] + \
        [(f"pipe: {a} {b} {e + 1}", connect_task(a, b, e, f, g)) for a, b, e, f, g in JOINS] + [(f"pipe: {a} {b} {'other' if e is None else e + 1}", close_task(a, b, e, f, g)) for a, b, e, f, g in PARTS]


def replay(failed, errors, seed, tier):
    H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "relay_harness.cpp")
    src = []
    for d, _, fs in os.walk(os.path.join(bld.REPO, "source")):
        src += [os.path.relpath(os.path.join(d, f), bld.REPO) for f in fs if f.endswith(".cpp") and "kqueue" not in f]
    b = bld.native("relay", H, sorted(src), extra=["samples/relay"], flags=nat.ASAN, libs=("-pthread", "-ldl"))
    return nat.confirm(b, [], [], seed, 100)


native_search = True
