"""C17: TcpClient.  Every member function is executed symbolically from the real code, for each kind of client the class invariant allows, all kernel results
and all behaviours of the application's callbacks (which may call connect, disconnect, send, or release the client).

Class invariant (holds whenever the application or the event loop gets control):
  idle:       no socket, no registration, no connection; at most one live retry timer, named by m_retry_timer_id;
  connecting: one open socket (m_socket), one live registration for it (m_socket_event_id), no connection, no retry timer;
  done:       a connection that owns the socket, no registration or timer of the client's own, nothing cached."""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from . import rb, osm, stdfn, sptr
from .osm import rec, calls

M = L = None
TITLE = "C17"
SRC = ["source/cyNetwork/network/cyn_tcp_client.cpp", "source/cyEvent/event/cye_looper.cpp"]
CLS = "cyclone::TcpClient"
FIELDS = ["m_listener", "m_id", "m_socket", "m_socket_event_id", "m_retry_timer_id", "m_serverAddr", "m_looper", "m_param", "m_connection", "m_connection_lock", "m_sendCache"]
LISTENER = ["on_connected", "on_message", "on_close"]
INV = bv((1 << 32) - 1, 32)
TRUSTED = libc.TRUST_TEXT + stdfn.TRUST + sptr.TRUST + [
    "TcpConnection through its contract (C12, C13): a new connection is connected and owns the socket; send transmits the bytes after those sent before, or closes the connection; "
    "it calls no callback that was not set; shutdown needs a connection that is not disconnected",
    "RingBuf members through their contracts (C01)", "Looper::register_event/register_timer_event/delete_event through their contracts (C14): a callback runs on the loop thread, only while registered",
    "socket_api functions: the system call of that name (C19); create_socket and connect may fail", "sys_api mutex: mutual exclusion, not recursive", "Address copies its value (C18)", "logging has no effect"]
ASSUMPTIONS = ["the client is owned by a shared_ptr; connect, disconnect and send-while-connecting are called on the loop thread (asserted by the code, documented)",
               "callbacks do not run the event loop recursively and do not change the listener; exceptions are not considered",
               "a client whose connection was established is not connected a second time (asserted by the code)", "the client is released only after its connection is disconnected (asserted by the code)"]


def build():
    global M, L, OFF, LAY, LOFF
    M, L = bld.module(SRC)
    OFF = {f: L.off(CLS, f, FIELDS) for f in FIELDS}
    LOFF = {f: OFF["m_listener"] + L.off(CLS + "::Listener", f, LISTENER) for f in LISTENER}
    LAY = rb.Lay(L)


def member(name):
    c = [d for d in M.bydem if re.match(rf"^cyclone::TcpClient::{name}\(", d) and M.has(M.bydem[d])]
    if len(c) != 1: raise bld.BuildError(f"TcpClient::{name}: {len(c)} definitions")
    return c[0]


def lambdas():
    """the closures of TcpClient"""
    return [d for d in M.bydem if re.search(r"^cyclone::TcpClient::.*(\$_\d+|lambda.*)::operator\(\)\(std::shared_ptr<cyclone::TcpConnection>\) const$", d) and M.has(M.bydem[d])]


class Cl:
    def __init__(self, v, name, role="loop"):
        self.ex = ex = v.exec(M, name)
        self.role = role
        libc.install(ex)
        rb.install(ex, LAY, rb.ALL)
        stdfn.install(ex, self.on_call)
        sptr.install(ex, self.ref)
        on = ex.on
        nop = lambda ex, st, a, I: None
        on(r"^cyclone::disk_log\(", nop)
        on(r"^cyclone::sys_api::mutex_create\(\)$", self.mcreate)
        on(r"^cyclone::sys_api::mutex_destroy\(", self.mdestroy)
        on(r"^cyclone::sys_api::mutex_lock\(", self.lock)
        on(r"^cyclone::sys_api::mutex_unlock\(", self.unlock)
        on(r"^cyclone::sys_api::thread_get_current_id\(\)$", lambda ex, st, a, I: ex.fresh("tid"))
        on(r"^cyclone::Looper::get_thread_id\(\) const$", lambda ex, st, a, I: ex.fresh("tid"))
        on(r"^std::operator[=!]=\(std::thread::id, std::thread::id\)$", lambda ex, st, a, I: T if ("==" in ex.m.dem[I.extra.val]) == (self.role == "loop") else F)
        on(r"^cyclone::Looper::register_event\(", self.register)
        on(r"^cyclone::Looper::register_timer_event\(", self.register_timer)
        on(r"^cyclone::Looper::delete_event\(", self.delete)
        on(r"^cyclone::socket_api::create_socket\(", self.create)
        on(r"^cyclone::socket_api::set_nonblock\(", lambda ex, st, a, I: self.flag(st, a, I, "nonblock"))
        on(r"^cyclone::socket_api::set_close_onexec\(", lambda ex, st, a, I: self.flag(st, a, I, "cloexec"))
        on(r"^cyclone::socket_api::set_(keep_alive|linger|nodelay)\(", lambda ex, st, a, I: (self.own_sock(st, a[0], I, "a socket option"), ex.fresh("ok", 1))[1])
        on(r"^cyclone::socket_api::connect\(", self.connect)
        on(r"^cyclone::socket_api::close_socket\(", self.close)
        on(r"^cyclone::socket_api::get_socket_error\(", self.sockerr)
        on(r"^cyclone::socket_api::get_lasterror\(\)$", lambda ex, st, a, I: ex.fresh("errno", 32))
        on(r"^cyclone::Address::Address\((cyclone::Address const&)?\)$", lambda ex, st, a, I: self.addr_copy(st, a) if len(a) > 1 else None)
        on(r"^cyclone::Address::~Address\(\)$", nop)
        on(r"^cyclone::Address::operator=\(", self.addr_copy_h)
        on(r"^cyclone::Address::get_sockaddr_in\(\) const$", lambda ex, st, a, I: a[0])
        on(r"^cyclone::Address::get_(ip|port)\(\) const$", lambda ex, st, a, I: Ptr(0, ex.fresh("ip")) if "ip" in ex.m.dem[I.extra.val] else ex.fresh("port", 16))
        on(r"^std::enable_shared_from_this<.*>::shared_from_this\(\)( const)?$", self.sft)
        on(r"^std::enable_shared_from_this<.*>::~?enable_shared_from_this\(", nop)
        on(r"^(cyclone::)?noncopyable::~?noncopyable\(\)$", nop)
        on(r"^std::_Bind_helper<.*std::bind<", self.bind)
        on(r"^std::function<.*>::function<(std::_Bind|cyclone::).*", self.fn_any)
        on(r"^.*std::make_shared<cyclone::TcpConnection", self.make_conn)
        C = r"^cyclone::TcpConnection::"
        on(C + r"set_on_(message|close|send_complete)\(", self.conn_set)
        on(C + r"send\(", self.conn_send)
        on(C + r"shutdown\(\)$", self.conn_shutdown)
        on(C + r"get_state\(\) const$", self.conn_state)
        on(r"^cyclone::TcpConnection::Owner::Owner\(\)$", nop)
        ex.access_hook = self.access

    def ob(self, st, name, goal, kind="postcondition", line=None):
        self.ex.oblige(st, name, goal if z3.is_expr(goal) else (T if goal else F), kind, line)

    # ------------------------------------------------------------------ fields
    def field(self, st, f, size=4):
        c, self.ex.access_hook = self.ex.access_hook, None
        try: return self.ex.load_cell(st, self.rid, OFF[f], size, _PtrTy() if size == 8 else _IntTy(8 * size))
        finally: self.ex.access_hook = c

    def put(self, st, f, v, size=4):
        c, self.ex.access_hook = self.ex.access_hook, None
        try: self.ex.store_cell(st, self.rid, OFF[f], size, v)
        finally: self.ex.access_hook = c

    def cache(self, st): return rb.pure(st, self.rid, OFF["m_sendCache"])
    def fresh_cache(self, st, empty=False):
        v = rb.make_pure(self.ex, st, LAY, "cache", self.rid, OFF["m_sendCache"])
        st.assume(z3.ULT(self.cache(st).size, bv(1 << 58)))
        if empty: st.assume(self.cache(st).size == 0)

    def alive(self, st): return st.mem[self.rid].alive
    def has(self, st, f): return stdfn.get(st, Ptr(self.rid, LOFF[f])).present
    def conn(self, st):
        p = self.field(st, "m_connection", 8)
        return None if is_null(p) else p.r

    # ------------------------------------------------------------------ the world: sockets, registrations, connections (immutable records in the ghost state)
    def upd(self, st, table, k, **kw): st.ghost[table] = {**st.ghost[table], k: {**st.ghost[table].get(k, {}), **kw}}

    def new_sock(self, st):
        s = self.ex.fresh("socket", 32)
        st.assume(s >= 0, *[s != x["fd"] for x in st.ghost["socks"].values() if x["open"]])
        k = len(st.ghost["socks"])
        self.upd(st, "socks", k, fd=s, open=True, nonblock=False, cloexec=False, owner="client", asked=None)
        return k, s

    def sock(self, st, t):
        for k, x in st.ghost["socks"].items():
            if x["fd"].eq(t) and x["open"]: return k
        return None

    def new_ev(self, st, kind, **kw):
        i = self.ex.fresh(kind + "_id", 32)
        st.assume(i != INV, *[i != x["id"] for x in st.ghost["evs"].values() if x["live"]])
        self.upd(st, "evs", len(st.ghost["evs"]), id=i, kind=kind, live=True, **kw)
        return i

    def live(self, st, kind): return [x for x in st.ghost["evs"].values() if x["live"] and x["kind"] == kind]

    def new_conn(self, st, **kw):
        r = self.ex.new_reg(st, "tcpconnection", "cells", 8)
        self.upd(st, "conns", r.id, sent=[], cb={}, **kw)
        return r.id

    # ------------------------------------------------------------------ an arbitrary client
    def start(self, st, kind, timer=False):
        ex = self.ex
        r = ex.new_reg(st, "client", "cells", L.sizeof(CLS))
        self.rid = r.id
        self.LK, self.LP, self.ID = ex.fresh("lock"), ex.fresh("looper"), ex.fresh("id", 32)
        st.assume(self.LK != 0, self.LP != 0)
        st.ghost.update(socks={}, evs={}, conns={}, locked=False, destroyed=False, refs=0, owner=True, addr={}, ctor=False, rb_pure=True, quiet=True, pub=False)
        self.fresh_cache(st, kind == "done")
        for f, v in (("m_id", self.ID), ("m_socket", INV), ("m_socket_event_id", INV), ("m_retry_timer_id", INV)): self.put(st, f, v)
        for f, v in (("m_looper", self.LP), ("m_param", ex.fresh("param")), ("m_connection_lock", self.LK)): self.put(st, f, Ptr(0, v), 8)
        self.put(st, "m_connection", sptr.NUL, 8)
        self.a0 = ex.fresh("addr", 64)
        st.ghost["addr"] = {(r.id, OFF["m_serverAddr"]): self.a0}
        self.callbacks(st)
        if kind == "idle" and timer: self.put(st, "m_retry_timer_id", self.new_ev(st, "timer", ms=ex.fresh("ms", 32), fn=("bound", member("_on_retry_connect_timer"), Ptr(r.id))))
        if kind == "connecting": self.connecting(st)
        if kind == "done":
            k, s = self.new_sock(st)
            self.upd(st, "socks", k, owner="connection")
            self.put(st, "m_socket", s)
            cs = ex.fresh("connection_state", 32)
            st.assume(cs >= 1, cs <= 3)
            self.put(st, "m_connection", Ptr(self.new_conn(st, state=cs)), 8)
        return r.id

    def connecting(self, st):
        k, s = self.new_sock(st)
        self.upd(st, "socks", k, nonblock=True, cloexec=True)
        self.put(st, "m_socket", s)
        fn = ("bound", member("_on_socket_read_write"), Ptr(self.rid))
        self.put(st, "m_socket_event_id", self.new_ev(st, "socket", fd=s, mask=bv(3, 32), fn=(fn, fn)))

    def callbacks(self, st):
        for f in LISTENER: stdfn.put(st, Ptr(self.rid, LOFF[f]), stdfn.Target(f, self.ex.fresh("has_" + f, 1)))

    def bound_to(self, t, name): return isinstance(t, tuple) and t[0] == "bound" and f"TcpClient::{name}(" in str(t[1]) and isinstance(t[2], Ptr) and t[2].r == self.rid

    def inv(self, st, what, line=None):
        """the class invariant; returns the kind"""
        ob = lambda n, g: self.ob(st, f"{what}: {n}", g, "invariant", line)
        ob("the client's lock is free", not st.ghost["locked"])
        O = [x for x in st.ghost["socks"].values() if x["open"] and x["owner"] == "client"]
        E, Tm, c = self.live(st, "socket"), self.live(st, "timer"), self.conn(st)
        f = lambda n: self.field(st, n)
        ev, tm = f("m_socket_event_id"), f("m_retry_timer_id")
        if c is not None:
            ob("an established client has no socket, registration or retry timer of its own left", z3.And(z3.BoolVal(not O and not E and not Tm), ev == INV, tm == INV, f("m_socket") != INV))
            ob("nothing stays cached once the connection is established", self.cache(st).size == 0)
            return "done"
        if O:
            ob("one socket at most is open", len(O) == 1)
            ob("a connecting client names its socket", f("m_socket") == O[0]["fd"])
            ob("a connecting client has exactly one live registration and names it", z3.And(z3.BoolVal(len(E) == 1), ev == E[0]["id"]) if E else F)
            if E:
                ob("the registration watches the client's socket for reading and writing", z3.And(E[0]["fd"] == O[0]["fd"], E[0]["mask"] & 3 == 3))
                ob("the registration calls the client", all(self.bound_to(t, "_on_socket_read_write") for t in E[0]["fn"]))
            ob("no retry timer is pending while connecting", z3.And(z3.BoolVal(not Tm), tm == INV))
            ob("the socket is non-blocking and closed on exec", O[0]["nonblock"] and O[0]["cloexec"])
            return "connecting"
        ob("an idle client has no socket and no registration", z3.And(z3.BoolVal(not E), ev == INV, f("m_socket") == INV))
        ob("an idle client names its retry timer, if one is pending, and has one at most", z3.And(z3.BoolVal(len(Tm) <= 1), tm == (Tm[0]["id"] if Tm else INV)))
        for t in Tm: ob("the retry timer calls the client", self.bound_to(t["fn"], "_on_retry_connect_timer"))
        return "idle"

    # ------------------------------------------------------------------ memory discipline
    def access(self, ex, st, p, ty, w, line):
        if p.r != getattr(self, "rid", None) or st.ghost["ctor"]: return None
        if w is not None and p.off in (OFF["m_socket"], OFF["m_connection"], OFF["m_connection"] + 8):
            self.ob(st, "the socket and the connection, which get_connection_state reads from any thread, change only under the client's lock", st.ghost["locked"], "race", line)
            if p.off == OFF["m_connection"] and isinstance(w[0], Ptr) and w[0].r: self.ob(st, "the connection is set once (other threads read it without the lock afterwards)", self.conn(st) is None, "race", line)
        if self.role == "other":
            if w is not None: self.ob(st, "another thread does not change the client", F, "race", line)
            elif p.off in (OFF["m_connection"], OFF["m_socket"]): self.ob(st, "another thread reads the connection under the lock, or after it saw it established", z3.BoolVal(st.ghost["locked"] or st.ghost["pub"]), "race", line)
            elif p.off in (OFF["m_socket_event_id"], OFF["m_retry_timer_id"]): self.ob(st, "another thread does not read the client's registrations", F, "race", line)
        return None

    def is_lock(self, a): return b64(a.off) == self.LK if isinstance(a, Ptr) and a.r == 0 else F
    def mcreate(self, ex, st, a, I):
        rec(st, "mutex_create")
        return Ptr(0, self.LK)

    def mdestroy(self, ex, st, a, I):
        self.ob(st, "only the client's own lock is destroyed, by its destructor, once", z3.And(self.is_lock(a[0]), z3.BoolVal(bool(st.ghost.get("dtor")) and not st.ghost["destroyed"])), "callee precondition", I.line)
        st.ghost["destroyed"] = True

    def lock(self, ex, st, a, I):
        self.ob(st, "the lock taken is the client's, alive, and not already held", z3.And(self.is_lock(a[0]), z3.BoolVal(not st.ghost["locked"] and not st.ghost["destroyed"])), "callee precondition", I.line)
        if st.ghost["locked"]: raise PathEnd()
        st.ghost["locked"] = True
        if self.role != "other" or st.ghost["pub"]: return None

        def idle(s): self.put(s, "m_socket", INV)

        def est(s):
            s.ghost["pub"] = True
            k, fd = self.new_sock(s)
            self.upd(s, "socks", k, owner="connection")
            self.put(s, "m_socket", fd)
            cs = ex.fresh("connection_state", 32)
            s.assume(cs >= 1, cs <= 3)
            self.put(s, "m_connection", Ptr(self.new_conn(s, state=cs)), 8)
        pick = ex.fresh("established", 1)
        return osm.alts(ex, st, [(z3.Not(pick), idle), (pick, est)])

    def unlock(self, ex, st, a, I):
        self.ob(st, "the lock released is the one held", z3.And(self.is_lock(a[0]), z3.BoolVal(st.ghost["locked"])), "callee precondition", I.line)
        st.ghost["locked"] = False

    # ------------------------------------------------------------------ ownership
    def sft(self, ex, st, a, I):
        p = ex.resolve(st, a[1])
        self.ob(st, "shared_from_this is called on the live client", p.r == self.rid and self.alive(st) and not st.ghost.get("dtor"), "memory", I.line)
        ex.store(st, a[0], Ptr(self.rid, 0), 8, I.line)
        st.ghost["refs"] += 1

    def ref(self, ex, st, v, d, line):
        if v.r == self.rid:
            st.ghost["refs"] += d
            if st.ghost["refs"] == 0 and not st.ghost["owner"]:
                self.inv(st, "when the last reference to the client is dropped", line)
                st.wreg(self.rid).alive = False

    # ------------------------------------------------------------------ addresses
    def addr(self, st, p):
        p = self.ex.resolve(st, p)
        self.ex.check_access(st, p, 4, False, 0, "address")
        return st.ghost["addr"].get((p.r, p.off))

    def addr_copy(self, st, a):
        v = self.addr(st, a[1])
        if v is None: raise Unsupported("copy of an unknown address")
        q = self.ex.resolve(st, a[0])
        st.ghost["addr"] = {**st.ghost["addr"], (q.r, q.off): v}

    def addr_copy_h(self, ex, st, a, I):
        self.addr_copy(st, a)
        return a[0]

    # ------------------------------------------------------------------ sockets
    def own_sock(self, st, t, I, what):
        k = self.sock(st, t)
        ok = k is not None and st.ghost["socks"][k]["owner"] == "client"
        self.ob(st, f"{what} names a socket the client opened and still owns", ok, "callee precondition", I.line)
        if not ok: raise PathEnd()
        return k

    def create(self, ex, st, a, I):
        rec(st, "create")
        self.ob(st, "a new attempt starts without an old socket", z3.BoolVal(not [1 for x in st.ghost["socks"].values() if x["open"]]), "postcondition", I.line)
        ok = ex.fresh("socket_created", 1)
        return osm.alts(ex, st, [(ok, lambda s: self.new_sock(s)[1]), (z3.Not(ok), lambda s: INV)])

    def flag(self, st, a, I, f):
        k = self.own_sock(st, a[0], I, f)
        on = a[1] if z3.is_bool(a[1]) else z3.Extract(0, 0, a[1]) == 1
        if z3.is_true(z3.simplify(on)): self.upd(st, "socks", k, **{f: True})
        return self.ex.fresh("ok", 1)

    def connect(self, ex, st, a, I):
        k = self.own_sock(st, a[0], I, "connect")
        self.ob(st, "the connection attempt does not block", st.ghost["socks"][k]["nonblock"], "postcondition", I.line)
        self.ob(st, "one connection attempt is made per socket", st.ghost["socks"][k]["asked"] is None, "postcondition", I.line)
        v = self.addr(st, a[1])
        self.upd(st, "socks", k, asked=v if v is not None else ex.fresh("noaddr", 64))
        r = ex.fresh("connect_started", 1)
        rec(st, "connect", r)
        return r

    def close(self, ex, st, a, I):
        k = self.own_sock(st, a[0], I, "close")
        fd = st.ghost["socks"][k]["fd"]
        self.ob(st, "a socket is closed after its registration was deleted", z3.BoolVal(not [1 for x in self.live(st, "socket") if x["fd"].eq(fd)]), "postcondition", I.line)
        self.upd(st, "socks", k, open=False)

    def sockerr(self, ex, st, a, I):
        self.own_sock(st, a[0], I, "get_socket_error")
        e = ex.fresh("socket_error", 32)
        rec(st, "sockerr", e)
        return e

    # ------------------------------------------------------------------ event loop
    def bind(self, ex, st, a, I):
        target, this = None, None
        for x in a:
            if isinstance(x, FnPtr): target = x.name
            if isinstance(x, Ptr) and x.r in st.mem and not (is_c(st.mem[x.r].size) and cval(st.mem[x.r].size) < 8):
                try: y = ex.load(st, x, _PtrTy())
                except Unsupported: continue
                if isinstance(y, FnPtr): target = y.name
                elif isinstance(y, Ptr) and y.r == self.rid: this = y
        stdfn.put(st, a[0], ("bound", ex.m.dem.get(target, target), this))

    def fn_any(self, ex, st, a, I):
        """a function object built from a bind expression or a closure (whose only capture is the client)"""
        t = stdfn.get(st, a[1])
        if t is None:
            m = re.search(r"function<(cyclone::TcpClient::.*?(?:\$_\d+|lambda[^#]*#\d+\})), void>", ex.m.dem[I.extra.val])
            q = ex.resolve(st, a[1])
            t = ("closure", m.group(1) if m else "?", dict(st.mem[q.r].cells))
        stdfn.put(st, a[0], t)

    def looper(self, p): return b64(p.off) == self.LP if isinstance(p, Ptr) and p.r == 0 else F

    def register(self, ex, st, a, I):
        k = self.own_sock(st, a[1], I, "the registration")
        self.ob(st, "the client registers with its own event loop", self.looper(a[0]), "callee precondition", I.line)
        fd = st.ghost["socks"][k]["fd"]
        self.ob(st, "a socket is registered once", z3.BoolVal(not [1 for x in self.live(st, "socket")]), "callee precondition", I.line)
        return self.new_ev(st, "socket", fd=fd, mask=a[2], fn=(stdfn.get(st, a[4]), stdfn.get(st, a[5])))

    def register_timer(self, ex, st, a, I):
        self.ob(st, "the client registers with its own event loop", self.looper(a[0]), "callee precondition", I.line)
        rec(st, "timer", a[1])
        return self.new_ev(st, "timer", ms=a[1], fn=stdfn.get(st, a[3]))

    def delete(self, ex, st, a, I):
        k = [k for k, x in st.ghost["evs"].items() if x["live"] and x["id"].eq(a[1])]
        self.ob(st, "only a live registration of the client is deleted, once", len(k) == 1, "callee precondition", I.line)
        if len(k) != 1: raise PathEnd()
        self.upd(st, "evs", k[0], live=False)

    # ------------------------------------------------------------------ connection
    def make_conn(self, ex, st, a, I):
        args = []
        for x in a[1:]:
            q = ex.resolve(st, x)
            y = ex.load(st, q, _PtrTy() if len(args) >= 2 else _IntTy(32))
            args.append(y)
        i, fd, lp, ow = args
        k = self.own_sock(st, fd, I, "the new connection")
        self.ob(st, "the connection takes over the socket after the client's registration was deleted", z3.BoolVal(not self.live(st, "socket")), "callee precondition", I.line)
        self.ob(st, "the connection gets the client's id, event loop and itself as owner", z3.And(i == self.ID, self.looper(lp), z3.BoolVal(isinstance(ow, Ptr) and ow.r == self.rid)), "postcondition", I.line)
        self.upd(st, "socks", k, owner="connection")
        c = self.new_conn(st, state=bv(1, 32))
        rec(st, "conn", c)
        ex.store(st, a[0], Ptr(c, 0), 8, I.line)

    def the_conn(self, ex, st, p, I):
        q = ex.resolve(st, p)
        ok = isinstance(q, Ptr) and q.r in st.ghost["conns"]
        self.ob(st, "the connection exists when it is used", ok, "memory", I.line)
        if not ok: raise PathEnd()
        return q.r

    def conn_set(self, ex, st, a, I):
        c = self.the_conn(ex, st, a[0], I)
        f = re.search(r"set_on_(\w+)\(", ex.m.dem[I.extra.val]).group(1)
        self.upd(st, "conns", c, cb={**st.ghost["conns"][c]["cb"], f: stdfn.get(st, a[1])})

    def conn_state(self, ex, st, a, I): return st.ghost["conns"][self.the_conn(ex, st, a[0], I)]["state"]

    def conn_send(self, ex, st, a, I):
        c = self.the_conn(ex, st, a[0], I)
        C = st.ghost["conns"][c]
        self.ob(st, "sending is done without the client's lock (it may call back)", not st.ghost["locked"], "callee precondition", I.line)
        q = ex.resolve(st, a[1])
        n = a[2]
        if q.r: ex.check_access(st, q, n, False, I.line, "bytes given to send")
        self.upd(st, "conns", c, sent=C["sent"] + [(q, n, rb.ptr_bytes(ex, st, q) if q.r else None)])
        if self.role == "other" or C.get("entry_done"): return None
        # on the loop thread a broken socket closes the connection (C12/C13), which calls on_close if that was set
        broken = ex.fresh("send_breaks", 1)

        def dead(s):
            self.upd(s, "conns", c, state=bv(3, 32))
            for k, x in s.ghost["socks"].items():
                if x["owner"] == "connection": self.upd(s, "socks", k, open=False)
            if C["cb"].get("close") is not None: self.closed_cb(s, I)
        return osm.alts(ex, st, [(z3.Not(broken), lambda s: None), (broken, dead)])

    def closed_cb(self, s, I):
        self.inv(s, "when the close of the connection is reported", I.line)
        s.ghost["owner"] = False
        if s.ghost["refs"] == 0: s.wreg(self.rid).alive = False

    def conn_shutdown(self, ex, st, a, I):
        c = self.the_conn(ex, st, a[0], I)
        self.ob(st, "only a connection that is not disconnected is shut down", st.ghost["conns"][c]["state"] != 3, "callee precondition", I.line)
        self.ob(st, "shutdown is called without the client's lock (it may call back)", not st.ghost["locked"], "callee precondition", I.line)
        rec(st, "shutdown", c)
        self.inv(st, "at shutdown", I.line)
        st.ghost["owner"] = False
        if st.ghost["refs"] == 0: st.wreg(self.rid).alive = False

    # ------------------------------------------------------------------ the application's callbacks
    def on_call(self, ex, st, t, p, args, I):
        name = getattr(t, "name", None)
        if name not in LISTENER: raise Unsupported("unknown callback")
        q = sptr.get(ex, st, args[0])
        self.ob(st, f"{name} gets this client", q.r == self.rid, "postcondition", I.line)
        cp = sptr.get(ex, st, args[1])
        if name != "on_connected":
            rec(st, name, cp)
            self.inv(st, f"at {name}", I.line)
            st.ghost["owner"] = False
            return None
        kind = self.inv(st, "at on_connected", I.line)
        ok = args[2] if z3.is_bool(args[2]) else z3.Extract(0, 0, args[2]) == 1
        ok = z3.is_true(z3.simplify(ok))
        rec(st, "notify", ok)
        if ok:
            self.ob(st, "success is reported with the established connection", kind == "done" and cp.r == self.conn(st), "postcondition", I.line)
        else:
            self.ob(st, "failure is reported without a connection", is_null(cp), "postcondition", I.line)
            self.ob(st, "failure is reported after the attempt was cleaned up (no socket, registration, connection or timer left)", kind == "idle" and not self.live(st, "timer"), "postcondition", I.line)
            e = st.ghost.get("cache0")
            if e is not None:
                k, w = ex.fresh("k"), self.cache(st)
                self.ob(st, "a failed attempt keeps the data waiting to be sent", z3.And(w.size == e.size, z3.Implies(z3.ULT(k, w.size), w.sel(k) == e.sel(k))), "postcondition", I.line)
        r = ex.fresh("retry_ms", 32)
        pick = ex.fresh("callback_connects", 1)

        def base(s):
            s.ghost["owner"] = False
            rec(s, "answer", r)
            return r

        def stay(s):
            if kind == "idle": self.fresh_cache(s)
            elif kind == "done":
                c = self.conn(s)
                if c is not None:
                    n = ex.fresh("connection_state", 32)
                    s.assume(n >= s.ghost["conns"][c]["state"], n <= 3)
                    self.upd(s, "conns", c, state=n)
            s.ghost["after"] = kind
            return base(s)

        def again(s):
            self.fresh_cache(s)
            self.connecting(s)
            a = ex.fresh("addr", 64)
            s.ghost["addr"] = {**s.ghost["addr"], (self.rid, OFF["m_serverAddr"]): a}
            s.ghost["after"] = "connecting"
            return base(s)
        return osm.alts(ex, st, [(z3.Not(pick), stay)] + ([(pick, again)] if kind == "idle" else []))

    # ------------------------------------------------------------------ postconditions
    def ended(self, s, what, ok):
        """the attempt that was running has ended: one notification, and a retry exactly if asked for"""
        nt, an, tm = calls(s, "notify"), calls(s, "answer"), calls(s, "timer")
        want = self.has0
        if nt: self.ob(s, f"{what}: the attempt's one notification reports {'success' if ok else 'failure'}", len(nt) == 1 and nt[0][1] == ok)
        self.ob(s, f"{what}: the end of the attempt is notified once (if the application listens)", z3.BoolVal(len(nt) == 1) == want if len(nt) < 2 else F)
        if ok:
            self.ob(s, f"{what}: no retry is scheduled after a success", not tm)
            return
        if not tm: self.ob(s, f"{what}: a retry that was asked for is scheduled, unless a new attempt was started already", z3.BoolVal(not nt or s.ghost["after"] != "idle") if not an else z3.Or(an[0][1] == 0, z3.BoolVal(s.ghost["after"] != "idle")))
        else:
            self.ob(s, f"{what}: a retry is scheduled only if asked for, with the interval asked for", z3.And(z3.BoolVal(len(tm) == 1 and len(an) == 1), tm[0][1] == an[0][1], an[0][1] != 0) if an else F)
            self.ob(s, f"{what}: no retry is scheduled when a new attempt was started already", s.ghost.get("after") == "idle")

    def same_cache(self, s, e, what):
        k, w = self.ex.fresh("k"), self.cache(s)
        self.ob(s, what, z3.And(w.size == e.size, z3.Implies(z3.ULT(k, w.size), w.sel(k) == e.sel(k))))


KINDS = [("idle", False), ("idle", True), ("connecting", False), ("done", False)]


def kname(k): return {"idle": "waiting for a retry" if k[1] else "idle"}.get(k[0], k[0])


def begin(v, name, k, role="loop"):
    c = Cl(v, name, role)
    st = State()
    rid = c.start(st, *k)
    c.has0 = c.has(st, "on_connected")
    st.ghost["cache0"] = c.cache(st)
    v.cover(c.ex, st)
    return c, c.ex, st, rid


def t_connect(k):
    def f(v):
        c, ex, st, rid = begin(v, f"connect ({kname(k)})", k)
        ar = ex.new_reg(st, "address", "bytes", 64)
        av = ex.fresh("addr", 64)
        st.ghost["addr"] = {**st.ghost["addr"], (ar.id, 0): av}
        e0 = c.cache(st)

        def ret(s, r):
            kind = c.inv(s, "connect")
            r = r if z3.is_bool(r) else r == 1
            c.ob(s, "connect: nothing is notified or scheduled by connect itself", not calls(s, ("notify", "timer")))
            O = [x for x in s.ghost["socks"].values() if x["open"]]
            cn = calls(s, "connect")
            if kind == "connecting":
                c.ob(s, "connect: an attempt under way was started, to the address given, and is reported as started", z3.And(r, cn[0][1], O[0]["asked"] == av) if len(cn) == 1 and O and O[0]["asked"] is not None else F)
            else: c.ob(s, "connect: an attempt that could not be started is reported as failed", z3.Not(r))
            c.ob(s, "connect: it succeeds when the socket could be created and the connection attempt started", z3.Implies(cn[0][1], r) if cn else T)
            c.ob(s, "connect: a pending retry is replaced", not c.live(s, "timer"))
            c.ob(s, "connect: the address is remembered for the next attempt", c.addr(s, Ptr(rid, OFF["m_serverAddr"])) == av)
            c.same_cache(s, e0, "connect: data waiting to be sent is kept")
        ex.run(st, member("connect"), [Ptr(rid), Ptr(ar.id)], ret)
    return f


def established(c, s, e0, what):
    """the success of an attempt"""
    cs = calls(s, "conn")
    k = c.conn(s)
    c.ob(s, f"{what}: the connection made is the client's", k is not None and len(cs) == 1 and cs[0][1] == k)
    if k is None: return
    C = s.ghost["conns"][k]
    sent = C["sent"]
    if not sent: c.ob(s, f"{what}: data sent before is transmitted", e0.size == 0)
    else:
        p, n, b = sent[0]
        i = c.ex.fresh("i")
        c.ob(s, f"{what}: exactly the data sent before is transmitted, first, in order", z3.And(z3.BoolVal(len(sent) == 1), n == e0.size, z3.Implies(z3.ULT(i, n), b(i) == e0.sel(i))) if b is not None else F)
    for f in ("message", "close"):
        t = C["cb"].get(f)
        c.ob(s, f"{what}: the connection's on_{f} is set if the application listens for it", z3.BoolVal(t is not None) == c.has(s, "on_" + f))
        if t is None: continue
        if not (isinstance(t, tuple) and t[0] == "closure"): raise Unsupported(f"the connection's on_{f} is neither empty nor a closure of the client")
        c.later.append((s.clone(), t, f))


def run_closure(c, s, t, f):
    """the function given to the connection is executed: it must call the application's on_<f> once, with this client and that connection"""
    ex = c.ex
    d = [x for x in lambdas() if x.startswith(t[1] + "::operator()")]
    c.ob(s, f"the connection's on_{f} is a function of the client", len(d) == 1)
    if len(d) != 1: return
    k = c.conn(s)
    r, q = ex.new_reg(s, "closure", "cells", 32), ex.new_reg(s, "argument", "cells", 16)
    for o, (v, n) in t[2].items(): ex.store_cell(s, r.id, o, n, v)
    ex.store_cell(s, q.id, 0, 8, Ptr(k, 0))
    s.trace = []

    def ret(x, _):
        tr = calls(x, tuple(LISTENER))
        c.ob(x, f"the connection's on_{f} calls the application's on_{f} once, with the connection", len(tr) == 1 and tr[0][0] == "on_" + f and tr[0][1].r == k)
    ex.run(s, d[0], [Ptr(r.id), Ptr(q.id)], ret)


def t_event(k):
    def f(v):
        c, ex, st, rid = begin(v, f"socket event ({kname(k)})", k)
        e0 = c.cache(st)
        c.later = []

        def ret(s, _):
            er = calls(s, "sockerr")
            if not c.alive(s):
                c.ob(s, "socket event: the client ends only by its callback", len(calls(s, "notify")) + len(calls(s, "shutdown")) > 0)
            kind = c.inv(s, "socket event") if c.alive(s) else None
            if k[0] != "connecting":
                c.ob(s, "socket event: an event that does not belong to an attempt changes nothing", kind == k[0] and not er and not calls(s, ("notify", "timer", "conn", "create")))
                return
            c.ob(s, "socket event: the result of the attempt is looked up", len(er) == 1)
            made = calls(s, "conn")
            broke = bool(made) and z3.is_true(z3.simplify(s.ghost["conns"][made[0][1]]["state"] == 3)) and c.conn(s) is None
            if er and made: c.ob(s, "socket event: a connection is made only if the attempt succeeded", er[0][1] == 0)
            if er and not made: c.ob(s, "socket event: an attempt that succeeded gets its connection", er[0][1] != 0)
            ok = bool(made) and not broke
            if broke: c.ob(s, "socket event: a connection that broke while the waiting data was sent counts as a failed attempt", len(s.ghost["conns"][made[0][1]]["sent"]) == 1)
            c.ended(s, "socket event", ok)
            if ok and c.alive(s): established(c, s, e0, "socket event")
        ex.run(st, member("_on_socket_read_write"), [Ptr(rid)], ret)
        for x in c.later: run_closure(c, *x)
    return f


def t_timer(v):
    c, ex, st, rid = begin(v, "retry timer", ("idle", True))
    e0 = c.cache(st)
    i = c.field(st, "m_retry_timer_id")
    old = c.live(st, "timer")[0]

    def ret(s, _):
        kind = c.inv(s, "retry timer") if c.alive(s) else None
        c.ob(s, "retry timer: the timer that fired is deleted", not [x for x in c.live(s, "timer") if x["id"].eq(i)])
        cr, cn = calls(s, "create"), calls(s, "connect")
        c.ob(s, "retry timer: one new attempt is made", len(cr) == 1)
        started = cn[0][1] if cn else F
        if calls(s, "notify") or calls(s, "timer"): c.ob(s, "retry timer: an attempt that was started is not reported yet", z3.Not(started))
        a = [x["asked"] for x in s.ghost["socks"].values() if x["asked"] is not None]
        for x in a: c.ob(s, "retry timer: the attempt goes to the address of the first one", x == c.a0)
        if kind == "connecting" and not calls(s, "notify") and s.ghost.get("after") is None:
            c.ob(s, "retry timer: an attempt is under way only if it could be started", started)
            c.same_cache(s, e0, "retry timer: data waiting to be sent is kept")
        else:
            c.ob(s, "retry timer: an attempt that could be started is under way", z3.Not(started))
            c.ended(s, "retry timer", False)
    ex.run(st, member("_on_retry_connect_timer"), [Ptr(rid), i], ret)


def t_disconnect(k):
    def f(v):
        c, ex, st, rid = begin(v, f"disconnect ({kname(k)})", k)

        def ret(s, _):
            c.ob(s, "disconnect: nothing is notified or scheduled", not calls(s, ("notify", "timer", "create")))
            sh = calls(s, "shutdown")
            if k[0] == "done":
                c0 = list(s.ghost["conns"])[0]
                c.ob(s, "disconnect: an established connection that is not closed yet is shut down", z3.BoolVal(len(sh) == 1) == (s.ghost["conns"][c0]["state"] != 3) if len(sh) < 2 else F)
            else: c.ob(s, "disconnect: there is no connection to shut down", not sh)
            if not c.alive(s): return
            kind = c.inv(s, "disconnect")
            c.ob(s, "disconnect: data waiting to be sent is dropped", c.cache(s).size == 0)
            if k[0] != "done": c.ob(s, "disconnect: no attempt is under way and none is scheduled", kind == "idle" and not c.live(s, "timer"))
        ex.run(st, member("disconnect"), [Ptr(rid)], ret)
    return f


def message(c, st):
    ex = c.ex
    n = ex.fresh("len")
    st.assume(z3.ULT(n, bv(1 << 58)))
    m = ex.new_reg(st, "message", "bytes", n)
    f = z3.Function("message.bytes", z3.BitVecSort(64), z3.BitVecSort(8))
    m.const = True
    st.mem[m.id].content = CFun(lambda i: f(b64(i)))
    return Ptr(m.id), n, f


def t_send(k, role="loop"):
    def f(v):
        c, ex, st, rid = begin(v, f"send ({kname(k)}, {role} thread)", k, role)
        p, n, mb = message(c, st)
        e0 = c.cache(st)
        if k[0] == "done": c.upd(st, "conns", c.conn(st), entry_done=True)

        def ret(s, _):
            i = ex.fresh("i")
            w = c.cache(s)
            cs = s.ghost["conns"]
            sent = [x for C in cs.values() for x in C["sent"]]
            if role == "loop": c.inv(s, "send")
            if k[0] == "connecting":
                c.ob(s, "send while connecting: the data is appended to what waits", z3.And(z3.BoolVal(not sent), w.size == e0.size + n, z3.Implies(z3.ULT(i, w.size), w.sel(i) == z3.If(z3.ULT(i, e0.size), e0.sel(i), mb(i - e0.size)))))
                return
            c.same_cache(s, e0, "send: what waits is left alone")
            if cs:
                state = list(cs.values())[0]["state"]
                c.ob(s, "send: data goes to the established connection, once, unless that is closing", z3.BoolVal(len(sent) == 1) == (state == 1) if len(sent) < 2 else F)
            else: c.ob(s, "send: without a connection nothing is sent", not sent)
            for q, m, _ in sent: c.ob(s, "send: the bytes sent are those given", z3.And(z3.BoolVal(q.r == p.r), b64(q.off) == 0, m == n))
        ex.run(st, member("send"), [Ptr(rid), p, n], ret)
    return f


def t_state(k, role="loop"):
    def f(v):
        c, ex, st, rid = begin(v, f"get_connection_state ({kname(k)}, {role} thread)", k, role)

        def ret(s, r):
            if role == "loop": c.inv(s, "get_connection_state")
            c.ob(s, "get_connection_state: the lock is released", not s.ghost["locked"], "resource")
            cs = list(s.ghost["conns"].values())
            want = cs[0]["state"] if cs else bv(0 if k[0] == "connecting" else 3, 32)
            c.ob(s, "get_connection_state: it tells connecting, the connection's state, or disconnected", r == want)
        ex.run(st, member("get_connection_state"), [Ptr(rid)], ret)
    return f


def t_ctor(v):
    c = Cl(v, "TcpClient()")
    ex, st = c.ex, State()
    rid = c.start(st, "idle")
    st.ghost.update(ctor=True, rbv={}, fn={})
    st.wreg(rid).cells.clear()
    prm, i = ex.fresh("param"), ex.fresh("id", 32)

    def ret(s, _):
        kind = c.inv(s, "construction")
        c.ob(s, "a new client is idle", kind == "idle" and not c.live(s, "timer"))
        c.ob(s, "a new client has its lock", z3.And(z3.BoolVal(len(calls(s, "mutex_create")) == 1), b64(c.field(s, "m_connection_lock", 8).off) == c.LK))
        c.ob(s, "a new client has its event loop, parameter and id", z3.And(c.looper(c.field(s, "m_looper", 8)), b64(c.field(s, "m_param", 8).off) == prm, c.field(s, "m_id") == i))
        w = c.cache(s)
        c.ob(s, "a new client has nothing waiting to be sent", w.size == 0 if w is not None else F)
        for f in LISTENER:
            t = stdfn.get(s, Ptr(rid, LOFF[f]))
            c.ob(s, f"a new client has no {f} callback", z3.Not(t.present) if isinstance(t, stdfn.Target) and t.present is not None else F)
    ex.run(st, member("TcpClient"), [Ptr(rid), Ptr(0, c.LP), Ptr(0, prm), i], ret)


def t_dtor(k):
    def f(v):
        c, ex, st, rid = begin(v, f"~TcpClient() ({kname(k)})", k)
        st.ghost.update(ctor=True, dtor=True)
        if k[0] == "done":
            cc = c.conn(st)
            c.upd(st, "conns", cc, state=bv(3, 32))

        def ret(s, _):
            c.ob(s, "the destructor destroys the client's lock", s.ghost["destroyed"], "resource")
            c.ob(s, "the destructor leaves no registration or timer that refers to the client", not [x for x in s.ghost["evs"].values() if x["live"]], "resource")
            c.ob(s, "the destructor leaves no socket open that only the client knows", not [x for x in s.ghost["socks"].values() if x["open"] and x["owner"] == "client"], "resource")
        ex.run(st, member("~TcpClient"), [Ptr(rid)], ret)
    return f


def tasks(tier):
    o = []
    for k in KINDS[:2]: o.append((f"TcpClient::connect ({kname(k)})", t_connect(k)))
    for k in KINDS:
        n = kname(k)
        if not k[1]: o.append((f"TcpClient::_on_socket_read_write ({n})", t_event(k)))
        o += [(f"TcpClient::disconnect ({n})", t_disconnect(k)), (f"TcpClient::send ({n})", t_send(k)), (f"TcpClient::get_connection_state ({n})", t_state(k)), (f"TcpClient destructor ({n})", t_dtor(k))]
    o += [("TcpClient::_on_retry_connect_timer", t_timer), ("TcpClient::send from another thread", t_send(KINDS[0], "other")), ("TcpClient::get_connection_state from another thread", t_state(KINDS[0], "other")),
          ("TcpClient constructor", t_ctor)]
    return o


def replay(failed, errors, seed, tier):
    H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "client_harness.cpp")
    b = bld.native("client", H, ["source/cyNetwork/network/cyn_tcp_client.cpp", "source/cyCore/core/cyc_ring_buf.cpp", "source/cyNetwork/network/cyn_address.cpp", "source/cyCrypt/crypt/cyr_adler32.cpp"], flags=nat.ASAN)
    return nat.confirm(b, [], [], seed, 20 if tier == "quick" else 300)
