"""TcpConnection under contract (shared by C12 and C13).

Every member function of TcpConnection that touches the connection is executed symbolically from the real code for an arbitrary connection satisfying the
invariant below; the loop thread's functions run against an environment of other threads calling send(), and send() from another thread runs against an
environment that includes the loop thread.  Collaborators are used through their contracts: RingBuf (C01/C02), Looper (C14), sockets, mutex, std::function.

Lock invariant (holds whenever m_write_buf_lock is free):
  state <> disconnected: the connection's registration is live and m_event_id names it; bytes queued => write interest is on;
  state  = disconnected: the registration is deleted and m_event_id is invalid.
Rest invariant (between events): read interest on; disconnecting => bytes are still queued (so write interest is on)."""
import z3, re
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from . import rb, osm, stdfn
from .osm import rec

M = L = None
SRC = ["source/cyNetwork/network/cyn_tcp_connection.cpp", "source/cyEvent/event/cye_looper.cpp"]
CLS = "cyclone::TcpConnection"
FIELDS = ["m_id", "m_socket", "m_state", "m_local_addr", "m_peer_addr", "m_looper", "m_event_id", "m_owner", "m_param", "m_read_buf", "m_write_buf", "m_write_buf_lock",
          "m_on_message", "m_on_send_complete", "m_on_close", "m_name", "m_readbuf_minmax_size", "m_writebuf_minmax_size", "m_read_statistics", "m_write_statistics"]
TRUSTED = libc.TRUST_TEXT + stdfn.TRUST + [
    "RingBuf members through their contracts (C01, C02: read_socket appends exactly the bytes received, write_socket removes exactly the bytes accepted, in order)",
    "Looper::register_event/delete_event/enable_write/disable_write/is_write/disable_all through their contracts (C14); the kernel accepts the interest change",
    "socket_api::write/shutdown/close_socket/get_lasterror/is_lasterror_WOULDBLOCK: the system call of that name", "sys_api mutex: mutual exclusion",
    "std::shared_ptr/enable_shared_from_this: reference counting", "statistics objects (C11), Address (C18), std::string, snprintf, logging: no effect on the connection"]
ASSUMPTIONS = ["the connection is owned by a shared_ptr and its loop-thread functions are called on the loop thread only (asserted by the code)",
               "callbacks do not replace the function object that is being called", "exceptions thrown by callbacks are not considered",
               "a message passed to send is shorter than 2^60 bytes and is not modified during the call"]
CONN, DISCING, DISCED = 1, 2, 3
INVALID_EVENT = (1 << 32) - 1


def build():
    global M, L, OFF, LAY
    M, L = bld.module(SRC)
    OFF = {f: L.off(CLS, f, FIELDS) for f in FIELDS}
    LAY = rb.Lay(L)


def find(p): return osm.find(M, p)


def member(name):
    c = [d for d in M.bydem if re.match(rf"^cyclone::TcpConnection::{name}\(", d) and M.has(M.bydem[d])]
    if not c: raise bld.BuildError(f"TcpConnection::{name} not found")
    return c[0]


class Conn:
    """role: 'loop' (the loop thread) or 'other'; props: the properties whose obligations are generated"""

    def __init__(self, v, name, props, role="loop"):
        self.ex = ex = v.exec(M, name)
        self.props, self.role = props, role
        self.graceful = False
        libc.install(ex)
        rb.install(ex, LAY, rb.ALL)
        stdfn.install(ex, self.on_call)
        on = ex.on
        nop = lambda ex, st, a, I: None
        on(r"^cyclone::disk_log\(", self.log)
        on(r"^cyclone::sys_api::mutex_create\(\)$", self.mcreate)
        on(r"^cyclone::sys_api::mutex_destroy\(", self.mdestroy)
        on(r"^cyclone::sys_api::mutex_lock\(", self.lock)
        on(r"^cyclone::sys_api::mutex_unlock\(", self.unlock)
        on(r"^cyclone::sys_api::thread_get_current_id\(\)$", lambda ex, st, a, I: ex.fresh("tid"))
        on(r"^cyclone::Looper::get_thread_id\(\) const$", lambda ex, st, a, I: ex.fresh("tid"))
        on(r"^std::operator[=!]=\(std::thread::id, std::thread::id\)$", lambda ex, st, a, I: T if ("==" in ex.m.dem[I.extra.val]) == (self.role == "loop") else F)
        on(r"^cyclone::Looper::is_write\(", self.is_write)
        on(r"^cyclone::Looper::is_read\(", lambda ex, st, a, I: self.interest(st, a, I, "R"))
        for n, w, val in (("enable_write", "W", T), ("disable_write", "W", F), ("enable_read", "R", T), ("disable_read", "R", F)):
            on(rf"^cyclone::Looper::{n}\(", lambda ex, st, a, I, w=w, val=val: self.set_interest(st, a, I, [w], val))
        on(r"^cyclone::Looper::disable_all\(", lambda ex, st, a, I: self.set_interest(st, a, I, ["W", "R"], F))
        on(r"^cyclone::Looper::delete_event\(", self.delete_event)
        on(r"^cyclone::Looper::register_event\(", self.register)
        on(r"^cyclone::socket_api::write\(", self.sock_write)
        on(r"^cyclone::socket_api::shutdown\(", self.sock_shutdown)
        on(r"^cyclone::socket_api::close_socket\(", self.sock_close)
        on(r"^cyclone::socket_api::get_lasterror\(\)$", lambda ex, st, a, I: st.ghost["errno"])
        on(r"^cyclone::socket_api::is_lasterror_WOULDBLOCK\(\)$", lambda ex, st, a, I: st.ghost["errno"] == 11)
        on(r"^cyclone::socket_api::set_", lambda ex, st, a, I: ex.fresh("ok", 1))
        on(r"^cyclone::socket_api::set_nonblock\(", lambda ex, st, a, I: (rec(st, "nonblock", a[0], a[1]), ex.fresh("ok", 1))[1])
        on(r"^cyclone::RingBuf::read_socket\(", self.read_socket)
        on(r"^cyclone::RingBuf::write_socket\(", self.write_socket)
        for n in ("memcpy_into", "memcpy_out", "moveto", "discard", "reset", "size", "empty", "peek", "full", "get_free_size", "normalize", "search", "resize", "copyto", "checksum"): self.guard_rb(n)
        on(r"^cyclone::MinMaxValue<.*>::(update|MinMaxValue)\(", nop)
        on(r"^cyclone::PeriodValue<.*>::push\(", self.stat_push)
        on(r"^cyclone::PeriodValue<.*>::~PeriodValue\(\)$", nop)
        on(r"^cyclone::Address::(~?Address)\(", nop)
        on(r"^cyclone::Address::operator=\(", lambda ex, st, a, I: a[0])
        on(r"^std::(__cxx11::)?basic_string<.*>::(~?basic_string)\(", nop)
        on(r"^std::(__cxx11::)?basic_string<.*>::operator=\(", lambda ex, st, a, I: a[0])
        on(r"^snprintf$", lambda ex, st, a, I: ex.fresh("len", 32))
        on(r"^std::enable_shared_from_this<.*>::shared_from_this\(\)$", self.sft)
        on(r"^std::enable_shared_from_this<.*>::~?enable_shared_from_this\(\)$", nop)
        on(r"^std::shared_ptr<cyclone::TcpConnection>::shared_ptr\(std::shared_ptr<cyclone::TcpConnection> const&\)$", self.sp_copy)
        on(r"^std::shared_ptr<cyclone::TcpConnection>::shared_ptr\(std::shared_ptr<cyclone::TcpConnection>&&\)$", self.sp_move)
        on(r"^std::shared_ptr<cyclone::TcpConnection>::~shared_ptr\(\)$", self.sp_dtor)
        on(r"^std::_Bind_helper<.*std::bind<", self.bind)
        ex.access_hook = self.access

    # ------------------------------------------------------------------ obligations
    def ob(self, st, prop, name, goal, kind="postcondition", line=None):
        if prop is not None and prop not in self.props: return
        self.ex.oblige(st, name, goal if z3.is_expr(goal) else (T if goal else F), kind, line)

    def field(self, st, f, size):
        c = self.ex.access_hook
        self.ex.access_hook = None
        try: return self.ex.load_cell(st, self.rid, OFF[f], size, _PtrTy() if size == 8 else _IntTy(8 * size))
        finally: self.ex.access_hook = c

    def put(self, st, f, v, size): self.ex.store_cell(st, self.rid, OFF[f], size, v)

    def state(self, st): return self.field(st, "m_state", 4)
    def is_(self, st, *vals): return z3.Or(*[self.state(st) == x for x in vals])
    def wview(self, st): return rb.pure(st, self.rid, OFF["m_write_buf"])
    def rview(self, st): return rb.pure(st, self.rid, OFF["m_read_buf"])
    def alive(self, st): return st.mem[self.rid].alive

    # ------------------------------------------------------------------ an arbitrary connection
    def start(self, st, live=True, rest=True):
        ex = self.ex
        r = ex.new_reg(st, "connection", "cells", L.sizeof(CLS))
        self.rid = r.id
        self.E, self.S, self.LK = ex.fresh("event_id", 32), ex.fresh("socket", 32), ex.fresh("lock")
        st.assume(self.E != bv(INVALID_EVENT, 32), self.S >= 0, self.LK != 0)
        st.ghost.update(errno=ex.fresh("errno", 32), locked=False, W=ex.fresh("write_interest", 1), R=T, deleted=F, closes=F, ncb=0, sockclosed=F, owner=True, refs=0, msg=None,
                        undelivered=F, unsent=None, in_ctor=False, seen=None, rb_pure=True, destroyed=False, accepted=F, refused=F)
        rb.make_pure(ex, st, LAY, "read_buf", r.id, OFF["m_read_buf"])
        rb.make_pure(ex, st, LAY, "write_buf", r.id, OFF["m_write_buf"])
        s = ex.fresh("state", 32)
        st.assume(z3.Or(s == CONN, s == DISCING))
        for f, v_, n in (("m_state", s, 4), ("m_socket", self.S, 4), ("m_event_id", self.E, 4), ("m_write_buf_lock", Ptr(0, self.LK), 8), ("m_looper", Ptr(0, ex.fresh("looper")), 8),
                         ("m_read_statistics", Ptr(0, ex.fresh("rstat")), 8), ("m_write_statistics", Ptr(0, ex.fresh("wstat")), 8)): self.put(st, f, v_, n)
        st.assume(self.field(st, "m_looper", 8).off != 0)
        self.callbacks(st)
        st.assume(self.lockinv(st))
        if rest: st.assume(z3.Implies(s == DISCING, self.wview(st).size != 0))
        self.small(st)
        return r.id

    def small(self, st):
        for w in (self.wview(st), self.rview(st)): st.assume(z3.ULT(w.size, bv(1 << 59)))

    def callbacks(self, st):
        for f in ("m_on_message", "m_on_send_complete", "m_on_close"): stdfn.put(st, Ptr(self.rid, OFF[f]), stdfn.Target(f, self.ex.fresh("has_" + f, 1)))

    def lockinv(self, st):
        s = self.state(st)
        w = self.wview(st)
        ev = self.field(st, "m_event_id", 4)
        return z3.And(z3.Implies(s != DISCED, z3.And(z3.Not(st.ghost["deleted"]), ev == self.E, z3.Implies(w.size != 0, st.ghost["W"]))),
                      z3.Implies(s == DISCED, z3.And(st.ghost["deleted"], ev == bv(INVALID_EVENT, 32))))

    def check_lockinv(self, st, what, line=None):
        s = self.state(st)
        w = self.wview(st)
        ev = self.field(st, "m_event_id", 4)
        g = st.ghost
        self.ob(st, None, f"{what}: a connection that is not disconnected has its live registration", z3.Implies(s != DISCED, z3.And(z3.Not(g["deleted"]), ev == self.E)), "invariant", line)
        self.ob(st, None, f"{what}: a disconnected connection has no registration left", z3.Implies(s == DISCED, z3.And(g["deleted"], ev == bv(INVALID_EVENT, 32))), "invariant", line)
        self.ob(st, "C12", f"{what}: while bytes are queued on a live connection the write interest is on", z3.Implies(z3.And(s != DISCED, w.size != 0), g["W"]), "invariant", line)

    # ------------------------------------------------------------------ other threads
    def env(self, st):
        """other senders (and, for role 'other', the loop thread) act while the lock is free"""
        ex = self.ex
        if st.ghost["locked"] or st.ghost["in_ctor"]: return
        w = self.wview(st)
        base = (self.rid, OFF["m_write_buf"])
        if self.role == "loop":
            can = self.is_(st, CONN)
            k = ex.fresh("env.sent")
            st.assume(z3.ULT(k, bv(1 << 58)), z3.Implies(z3.Not(can), k == 0))
            f = z3.Function(f"env.bytes!{k}", z3.BitVecSort(64), z3.BitVecSort(8))
            nv = rb.append(w, k, lambda i: f(b64(i)))
            rb.set_pure(st, *base, rb.View(nv.size, nv.sel, ex.fresh("cap")))
            st.assume(z3.UGE(self.wview(st).cap, nv.size), z3.UGE(self.wview(st).cap, w.cap), z3.ULT(self.wview(st).cap, bv(rb.LIM)))
            st.ghost["W"] = z3.simplify(z3.Or(st.ghost["W"], z3.And(can, ex.fresh("env.enables", 1)), k != 0))
            m = st.ghost["msg"]
            if m is not None and not is_c(m["p"]): st.ghost["msg"] = {**m, "torn": z3.Or(m["torn"], z3.And(k != 0, m["p"] != 0, m["p"] != self.len))}
            self.small(st)
            return
        # role other: the loop thread may flush, disable, advance the state, close
        old = self.state(st)
        s = ex.fresh("state", 32)
        st.assume(z3.UGE(s, old), z3.ULE(s, DISCED))
        self.put(st, "m_state", s, 4)
        d = s == DISCED
        ev = z3.If(d, bv(INVALID_EVENT, 32), self.E)
        self.put(st, "m_event_id", ev, 4)
        st.ghost["deleted"] = d
        rb.make_pure(ex, st, LAY, "write_buf", self.rid, OFF["m_write_buf"])
        st.ghost["W"] = z3.And(z3.Not(d), ex.fresh("write_interest", 1))
        st.assume(self.lockinv(st))
        self.small(st)

    def access(self, ex, st, p, ty, w, line):
        if p.r != getattr(self, "rid", None) or st.ghost["in_ctor"]: return None
        if p.off == OFF["m_state"]:
            if w is None:
                if self.role == "other": self.env(st)
                return None
            v = w[0]
            old = self.state(st)
            self.ob(st, "C13", "the connection state only moves forward", z3.And(z3.UGE(v, old), z3.ULE(v, DISCED)), "invariant", line)
            self.ob(st, "C12", "the state changes only while the send lock is held (a concurrent send cannot be accepted and then forgotten)", st.ghost["locked"], "guarantee", line)
            if self.role == "other": self.ob(st, None, "only the loop thread changes the state", F, "guarantee", line)
            self.env(st)
        elif p.off == OFF["m_event_id"]:
            if w is None:
                if self.role == "other":
                    self.ob(st, None, "another thread reads the event id only under the lock", st.ghost["locked"], "race", line)
                return None
            self.ob(st, None, "the event id changes only while the send lock is held", st.ghost["locked"], "guarantee", line)
        elif p.off == OFF["m_socket"] and self.role == "other" and w is None:
            self.ob(st, None, "another thread does not use the socket", F, "race", line)
        return None

    # ------------------------------------------------------------------ mutex
    def mcreate(self, ex, st, a, I):
        rec(st, "mutex_create")
        return Ptr(0, self.LK)

    def is_lock(self, a): return z3.And(z3.BoolVal(isinstance(a, Ptr) and a.r == 0), b64(a.off) == self.LK) if isinstance(a, Ptr) and a.r == 0 else F

    def mdestroy(self, ex, st, a, I):
        self.ob(st, None, "only the connection's own lock is destroyed, by its destructor, once", z3.And(self.is_lock(a[0]), z3.BoolVal(st.ghost.get("in_dtor", False) and not st.ghost["destroyed"])), "callee precondition", I.line)
        st.ghost["destroyed"] = True

    def lock(self, ex, st, a, I):
        self.ob(st, None, "the lock taken is the connection's, alive, and not already held", z3.And(self.is_lock(a[0]), z3.BoolVal(not st.ghost["locked"] and not st.ghost["destroyed"])), "callee precondition", I.line)
        if st.ghost["locked"]: raise PathEnd()
        self.env(st)
        st.ghost["locked"] = True

    def unlock(self, ex, st, a, I):
        self.ob(st, None, "the lock released is the one held", z3.And(self.is_lock(a[0]), z3.BoolVal(st.ghost["locked"])), "callee precondition", I.line)
        self.check_lockinv(st, "at unlock", I.line)
        st.ghost["locked"] = False
        st.ghost["seen"] = self.wview(st).size
        m = st.ghost["msg"]
        if m is not None: st.ghost["accepted"] = z3.Or(st.ghost["accepted"], m["p"] == self.len)

    # ------------------------------------------------------------------ event loop
    def own_id(self, st, a, I, what):
        self.ob(st, None, f"{what} names the connection's own live registration (or none)", z3.Or(a[1] == bv(INVALID_EVENT, 32), z3.And(a[1] == self.E, z3.Not(st.ghost["deleted"]))), "callee precondition", I.line)

    def interest(self, st, a, I, w):
        self.own_id(st, a, I, "is_" + w)
        return z3.simplify(z3.And(a[1] == self.E, z3.Not(st.ghost["deleted"]), st.ghost[w]))

    def is_write(self, ex, st, a, I):
        self.env(st)
        return self.interest(st, a, I, "W")

    def set_interest(self, st, a, I, which, val):
        self.env(st)
        self.own_id(st, a, I, "the interest change")
        for w in which: st.ghost[w] = z3.simplify(z3.If(z3.And(a[1] == self.E, z3.Not(st.ghost["deleted"])), val, st.ghost[w]))

    def delete_event(self, ex, st, a, I):
        self.env(st)
        self.ob(st, "C13", "the registration is deleted exactly once", z3.And(a[1] == self.E, z3.Not(st.ghost["deleted"])), "postcondition", I.line)
        if self.graceful: self.ob(st, "C12", "a graceful close happens only after every queued byte was written", self.wview(st).size == 0, "postcondition", I.line)
        st.ghost["deleted"] = T
        st.ghost["W"] = st.ghost["R"] = F

    def bind(self, ex, st, a, I):
        target, this = None, None
        for x in a:
            if isinstance(x, FnPtr): target = x.name
            if isinstance(x, Ptr) and x.r in st.mem:
                try: y = ex.load(st, x, _PtrTy())
                except Unsupported: continue
                if isinstance(y, FnPtr): target = y.name
                elif isinstance(y, Ptr) and y.r == self.rid: this = y
        stdfn.put(st, a[0], ("bound", ex.m.dem.get(target, target), this))
        return None

    def register(self, ex, st, a, I):
        rec(st, "register", a[1], a[2], stdfn.get(st, a[4]), stdfn.get(st, a[5]))
        return self.E

    # ------------------------------------------------------------------ sockets
    def sock(self, st, a, I, what): self.ob(st, None, f"{what} acts on the connection's own open socket", z3.And(a == self.S, z3.Not(st.ghost["sockclosed"])), "callee precondition", I.line)

    def sock_write(self, ex, st, a, I):
        if self.role == "other": self.ob(st, None, "only the loop thread writes to the socket", F, "race", I.line)
        self.sock(st, a[0], I, "write")
        self.env(st)
        m = st.ghost["msg"]
        if m is None:
            self.ob(st, "C12", "only bytes of a message passed to send are written", F, "postcondition", I.line)
            raise PathEnd()
        q, n = ex.resolve(st, a[1]), a[2]
        ok = q.r == self.mreg
        self.ob(st, "C12", "the bytes written are the next bytes of the message", z3.And(b64(q.off) == self.moff + m["p"], z3.ULE(n, self.len - m["p"])) if ok else F, "postcondition", I.line)
        self.ob(st, "C12", "a message is written directly only when nothing is queued before it", self.wview(st).size == 0, "postcondition", I.line)
        self.ob(st, "C12", "a message is written directly only while connected", self.is_(st, CONN), "postcondition", I.line)
        r = ex.fresh("written")
        st.ghost["errno"] = ex.fresh("errno", 32)
        st.assume(r >= -1, r <= n)
        st.ghost["werr"] = r == -1
        st.ghost["msg"] = {**m, "p": z3.simplify(m["p"] + z3.If(r > 0, r, bv(0)))}
        return r

    def sock_shutdown(self, ex, st, a, I):
        self.sock(st, a[0], I, "shutdown")
        if self.graceful: self.ob(st, "C12", "the socket is shut down only after every queued byte was written", z3.And(self.wview(st).size == 0, z3.Not(self.is_(st, CONN))), "postcondition", I.line)
        return ex.fresh("ok", 1)

    def sock_close(self, ex, st, a, I):
        self.ob(st, "C13", "the socket is closed exactly once, after its registration was deleted", z3.And(a[0] == self.S, z3.Not(st.ghost["sockclosed"]), st.ghost["deleted"]), "postcondition", I.line)
        st.ghost["sockclosed"] = T

    def log(self, ex, st, a, I):
        st.ghost["errno"] = ex.fresh("errno", 32)

    def stat_push(self, ex, st, a, I):
        v = ex.load(st, a[1], _IntTy(64))
        self.ob(st, "C12", "the statistics object exists and records a byte count that was transferred", z3.And(b64(a[0].off) != 0 if a[0].r == 0 else T, z3.ULT(v, bv(1 << 62))), "callee precondition", I.line)

    # ------------------------------------------------------------------ buffers
    def which(self, ex, st, p):
        q = ex.resolve(st, p)
        if not isinstance(q, Ptr) or q.r != self.rid: return None
        ex.check_access(st, q, 8, False, 0, "connection buffer")
        return {OFF["m_write_buf"]: "write", OFF["m_read_buf"]: "read"}.get(q.off)

    def guard_rb(self, n):
        old = None
        for rx, h in self.ex.handlers:
            if rx.search(f"cyclone::RingBuf::{n}()") or rx.search(f"cyclone::RingBuf::{n}() const"): old = h

        def h(ex, st, a, I):
            k = self.which(ex, st, a[0])
            if k == "write": self.touch_write(ex, st, n, a, I)
            if k == "read" and n in ("memcpy_out", "moveto", "discard", "reset"):
                self.ob(st, "C13", "received bytes are not dropped by a live connection", z3.And(self.is_(st, DISCED), z3.Not(st.ghost["undelivered"])), "postcondition", I.line)
            if k == "read" and n == "memcpy_into": self.ob(st, "C13", "only received bytes enter the read buffer", F, "postcondition", I.line)
            if old is None: raise Unsupported(f"RingBuf::{n}")
            return old(ex, st, a, I)
        self.ex.on(rf"^cyclone::RingBuf::{n}\(.*\)( const)?$", h)

    def touch_write(self, ex, st, n, a, I):
        if st.ghost["in_ctor"]: return
        self.ob(st, None, "the write buffer is used only under the send lock, or after the connection is disconnected", z3.Or(z3.BoolVal(st.ghost["locked"]), self.is_(st, DISCED)), "race", I.line)
        if n in ("memcpy_out", "moveto", "discard", "reset"):
            self.ob(st, "C12", "queued bytes leave the write buffer only through the socket while the connection is live", self.is_(st, DISCED), "postcondition", I.line)
        if n == "memcpy_into":
            m = st.ghost["msg"]
            if m is None:
                self.ob(st, "C12", "only messages passed to send are queued", F, "postcondition", I.line)
                raise PathEnd()
            q, k = ex.resolve(st, a[1]), a[2]
            self.ob(st, "C12", "the bytes queued are the next bytes of the message", z3.And(b64(q.off) == self.moff + m["p"], z3.ULE(k, self.len - m["p"])) if q.r == self.mreg else F, "postcondition", I.line)
            self.ob(st, "C12", "bytes of another message do not get between two parts of one message", z3.Not(m["torn"]), "postcondition", I.line)
            self.ob(st, "C12", "a message is queued only while connected", self.is_(st, CONN), "postcondition", I.line)
            st.ghost["msg"] = {**m, "p": z3.simplify(m["p"] + k)}

    def read_socket(self, ex, st, a, I):
        k = self.which(ex, st, a[0])
        self.sock(st, a[1], I, "read")
        self.ob(st, "C13", "received bytes go to the read buffer of a live connection", z3.And(z3.BoolVal(k == "read"), z3.Not(self.is_(st, DISCED))), "postcondition", I.line)
        r = ex.fresh("received")
        st.assume(r >= -1, r < (1 << 58))
        st.ghost["errno"] = ex.fresh("errno", 32)
        st.ghost["rlast"] = r

        def got(s):
            v = self.rview(s)
            f = z3.Function(f"received.bytes!{r}", z3.BitVecSort(64), z3.BitVecSort(8))
            nv = rb.append(v, r, lambda i: f(b64(i)))
            c = ex.fresh("cap")
            s.assume(z3.UGE(c, nv.size), z3.ULT(c, bv(rb.LIM)))
            rb.set_pure(s, self.rid, OFF["m_read_buf"], rb.View(nv.size, nv.sel, c))
            s.ghost["rexpect"] = rb.pure(s, self.rid, OFF["m_read_buf"])
            s.ghost["undelivered"] = T
            return r
        return osm.alts(ex, st, [(r > 0, got), (r <= 0, lambda s: r)])

    def write_socket(self, ex, st, a, I):
        if self.role == "other": self.ob(st, None, "only the loop thread writes to the socket", F, "race", I.line)
        k = self.which(ex, st, a[0])
        self.sock(st, a[1], I, "write")
        self.ob(st, "C12", "bytes are flushed from the write buffer, under the send lock", z3.BoolVal(k == "write" and st.ghost["locked"]), "postcondition", I.line)
        v = self.wview(st)
        r = ex.fresh("flushed")
        st.assume(r >= -1, z3.If(v.size == 0, r == 0, r <= v.size))
        st.ghost["errno"] = ex.fresh("errno", 32)
        st.ghost["tried"] = T
        nv = rb.drop(v, z3.simplify(z3.If(r > 0, r, bv(0))))
        rb.set_pure(st, self.rid, OFF["m_write_buf"], rb.View(nv.size, nv.sel, v.cap))
        return r

    # ------------------------------------------------------------------ ownership
    def sft(self, ex, st, a, I):
        p = ex.resolve(st, a[1])
        self.ob(st, None, "shared_from_this is called on the live connection", z3.BoolVal(p.r == self.rid and self.alive(st)), "memory", I.line)
        ex.store(st, a[0], Ptr(self.rid), 8, I.line)
        ex.store(st, Ptr(a[0].r, add64(a[0].off, 8)), Ptr(0, bv(0)), 8, I.line)
        st.ghost["refs"] += 1

    def sp_copy(self, ex, st, a, I):
        v = ex.load(st, a[1], _PtrTy())
        ex.store(st, a[0], v, 8, I.line)
        if v.r == self.rid: st.ghost["refs"] += 1

    def sp_move(self, ex, st, a, I):
        ex.store(st, a[0], ex.load(st, a[1], _PtrTy()), 8, I.line)
        ex.store(st, a[1], Ptr(0, bv(0)), 8, I.line)

    def sp_dtor(self, ex, st, a, I):
        v = ex.load(st, a[0], _PtrTy())
        if v.r != self.rid: return
        ex.store(st, a[0], Ptr(0, bv(0)), 8, I.line)
        st.ghost["refs"] -= 1
        self.maybe_free(st)

    def maybe_free(self, st):
        if st.ghost["refs"] == 0 and not st.ghost["owner"]:
            d = z3.And(self.is_(st, DISCED), st.ghost["deleted"], st.ghost["sockclosed"])
            self.ob(st, "C13", "a connection is released only after its socket and registration were released", d, "postcondition")
            st.wreg(self.rid).alive = False

    # ------------------------------------------------------------------ callbacks
    def on_call(self, ex, st, t, p, args, I):
        name = next((f for f in ("m_on_message", "m_on_send_complete", "m_on_close") if p.r == self.rid and p.off == OFF[f]), None)
        if name is None and getattr(t, "name", None) in ("m_on_message", "m_on_send_complete", "m_on_close"): name = t.name
        if name is None: raise Unsupported("unknown callback")
        g = st.ghost
        if self.role == "other":
            self.ob(st, None, "callbacks run on the loop thread only", F, "race", I.line)
            raise PathEnd()
        q = ex.load(st, args[0], _PtrTy())
        self.ob(st, None, "the callback gets this connection", z3.BoolVal(isinstance(q, Ptr) and q.r == self.rid and q.off == 0), "postcondition", I.line)
        self.ob(st, None, "callbacks run without the send lock", z3.BoolVal(not g["locked"]), "callee precondition", I.line)
        self.check_lockinv(st, f"at {name}", I.line)
        if name == "m_on_close":
            self.ob(st, "C13", "the close notification is given once, when the connection is disconnected and its registration is gone", z3.And(self.is_(st, DISCED), g["deleted"], z3.Not(g["closes"])), "postcondition", I.line)
            self.ob(st, "C13", "bytes received before the close were delivered", z3.Or(z3.Not(g["undelivered"]), z3.Not(self.has(st, "m_on_message"))), "postcondition", I.line)
            g["closes"] = T
            g["owner"] = False
            return None
        self.ob(st, "C13", "no notification is delivered after the close", z3.And(z3.Not(self.is_(st, DISCED)), z3.Not(g["closes"])), "postcondition", I.line)
        if name == "m_on_message":
            e = g.get("rexpect")
            self.ob(st, "C13", "the message callback follows received bytes, once", g["undelivered"], "postcondition", I.line)
            if e is not None:
                v, k = self.rview(st), ex.fresh("k")
                self.ob(st, "C13", "the message callback sees the earlier bytes followed by the bytes just received", z3.And(v.size == e.size, z3.Implies(z3.ULT(k, v.size), v.sel(k) == e.sel(k))), "postcondition", I.line)
            g["undelivered"] = F
        else:
            self.ob(st, "C12", "the write-complete notification fires only when everything queued had been written", g["seen"] == 0 if g["seen"] is not None else F, "postcondition", I.line)
            self.ob(st, "C12", "the write-complete notification answers a writability event", z3.BoolVal(g.get("in_write", False)), "postcondition", I.line)
            rec(st, "complete")
        strong = name == "m_on_message"
        was = self.state(st)

        def live(s):
            n = ex.fresh("state", 32)
            s.assume(z3.UGE(n, was), z3.ULE(n, DISCING))
            self.put(s, "m_state", n, 4)
            rb.make_pure(ex, s, LAY, "read_buf", self.rid, OFF["m_read_buf"])
            rb.make_pure(ex, s, LAY, "write_buf", self.rid, OFF["m_write_buf"])
            s.ghost["W"] = ex.fresh("write_interest", 1)
            s.assume(self.lockinv(s), z3.Implies(z3.And(n == DISCING, z3.Or(z3.BoolVal(strong), was != DISCING)), self.wview(s).size != 0))
            self.small(s)
            self.callbacks(s)
            for f in ("m_read_statistics", "m_write_statistics"): self.put(s, f, Ptr(0, ex.fresh(f)), 8)
            s.ghost["errno"] = ex.fresh("errno", 32)

        def closed(s):
            self.put(s, "m_state", bv(DISCED, 32), 4)
            self.put(s, "m_event_id", bv(INVALID_EVENT, 32), 4)
            self.put(s, "m_socket", bv(INVALID_EVENT, 32), 4)
            for f in ("m_read_buf", "m_write_buf"):
                b = rb.pure(s, self.rid, OFF[f])
                rb.set_pure(s, self.rid, OFF[f], rb.View(bv(0), b.sel, b.cap))
            s.ghost.update(W=F, R=F, deleted=T, closes=self.has(s, "m_on_close"), sockclosed=T, owner=False, errno=ex.fresh("errno", 32), nested=True)
        pick = ex.fresh("callback_closes", 1)
        return osm.alts(ex, st, [(z3.Not(pick), live), (pick, closed)])

    def has(self, st, f): return stdfn.get(st, Ptr(self.rid, OFF[f])).present

    # ------------------------------------------------------------------ a message
    def message(self, st):
        ex = self.ex
        self.len = ex.fresh("len")
        st.assume(z3.ULT(self.len, bv(1 << 60)))
        m = ex.new_reg(st, "message", "bytes", self.len)
        f = z3.Function("message.bytes", z3.BitVecSort(64), z3.BitVecSort(8))
        m.const = True
        st.mem[m.id].content = CFun(lambda i: f(b64(i)))
        self.mreg, self.moff = m.id, bv(0)
        st.ghost["msg"] = {"p": bv(0), "torn": F}
        return Ptr(m.id)

    # ------------------------------------------------------------------ what holds when an entry point returns to the event loop or the application
    def rest(self, s, what, weak=False):
        g = s.ghost
        self.ob(s, None, f"{what}: the send lock is released", z3.BoolVal(not g["locked"]), "resource")
        if not self.alive(s): return
        self.check_lockinv(s, f"{what}, on return")
        st_ = self.state(s)
        live = st_ != DISCED
        self.ob(s, "C13", f"{what}: a live connection still watches for reading and keeps its socket", z3.Implies(live, z3.And(g["R"], z3.Not(g["sockclosed"]), self.field(s, "m_socket", 4) == self.S)), "invariant")
        if not weak: self.ob(s, "C12", f"{what}: a closing connection stays open only while bytes are queued and write interest is on", z3.Implies(st_ == DISCING, z3.And(self.wview(s).size != 0, g["W"])), "invariant")
        self.ob(s, "C13", f"{what}: a disconnected connection has reported the close once and released its socket and registration",
                z3.Implies(st_ == DISCED, z3.And(g["deleted"], g["sockclosed"], self.field(s, "m_socket", 4) == bv(INVALID_EVENT, 32), z3.Or(g["closes"], z3.Not(self.has(s, "m_on_close"))))), "postcondition")
        self.ob(s, "C13", f"{what}: no close notification without a close", z3.Implies(live, z3.And(z3.Not(g["closes"]), z3.Not(g["deleted"]))), "postcondition")
        self.ob(s, "C13", f"{what}: bytes received are delivered before returning", z3.Or(z3.Not(g["undelivered"]), z3.Not(self.has(s, "m_on_message"))), "postcondition")


def t_send_loop(props):
    def f(v):
        c = Conn(v, "send (loop thread)", props)
        ex, st = c.ex, State()
        rid = c.start(st, rest=False)
        p = c.message(st)
        s0 = c.state(st)
        v.cover(ex, st)

        def ret(s, r):
            c.rest(s, "send", weak=True)
            m = s.ghost["msg"]
            fault = z3.BoolVal("werr" in s.ghost)
            if not c.alive(s): return c.ob(s, "C12", "send: a connection is closed only by a write error", fault)
            closed = c.is_(s, DISCED)
            c.ob(s, "C12", "send: the whole message is written or queued, once, unless the connection is not connected or the write failed for good",
                 z3.Or(m["p"] == c.len, s0 != CONN, z3.And(fault, closed)), "postcondition")
            c.ob(s, "C12", "send: a message is refused as a whole", z3.Implies(s0 != CONN, m["p"] == 0), "postcondition")
            c.ob(s, "C13", "send: the connection is closed only when the write failed", z3.Implies(closed, s.ghost.get("werr", F)), "postcondition")
        ex.run(st, member("send"), [Ptr(rid), p, c.len], ret)
    return f


def t_send_other(props):
    def f(v):
        c = Conn(v, "send (another thread)", props, "other")
        ex, st = c.ex, State()
        rid = c.start(st)
        p = c.message(st)
        v.cover(ex, st)

        def ret(s, r):
            m = s.ghost["msg"]
            c.ob(s, None, "send: the send lock is released", z3.BoolVal(not s.ghost["locked"]), "resource")
            c.ob(s, "C12", "send from another thread: the whole message is queued once, or refused as a whole because the connection is no longer connected",
                 z3.Or(z3.And(m["p"] == c.len, z3.Or(s.ghost["accepted"], c.len == 0)), z3.And(m["p"] == 0, z3.Not(c.is_(s, CONN)))), "postcondition")
        ex.run(st, member("send"), [Ptr(rid), p, c.len], ret)
    return f


def t_shutdown(props):
    def f(v):
        c = Conn(v, "shutdown", props)
        c.graceful = True
        ex, st = c.ex, State()
        rid = c.start(st, rest=False)
        v.cover(ex, st)

        def ret(s, r):
            c.rest(s, "shutdown")
            if c.alive(s): c.ob(s, "C13", "shutdown: the connection is closing or closed", z3.Not(c.is_(s, CONN)), "postcondition")
        ex.run(st, member("shutdown"), [Ptr(rid)], ret)
    return f


def t_read(props):
    def f(v):
        c = Conn(v, "_on_socket_read", props)
        ex, st = c.ex, State()
        rid = c.start(st)
        v.cover(ex, st)

        def ret(s, r):
            c.rest(s, "_on_socket_read")
            n = s.ghost.get("rlast")
            c.ob(s, "C13", "a readiness event is answered by reading the socket", z3.BoolVal(n is not None), "postcondition")
            if n is None: return
            dead = c.is_(s, DISCED) if c.alive(s) else T
            nested = z3.BoolVal(s.ghost.get("nested", False))
            # errno at the read is the one remembered unless something was logged
            c.ob(s, "C13", "_on_socket_read: end of stream closes the connection", z3.Implies(n == 0, dead), "postcondition")
            c.ob(s, "C13", "_on_socket_read: received bytes do not close the connection", z3.Implies(z3.And(n > 0, dead), nested), "postcondition")
            e = s.ghost["rerr"]
            c.ob(s, "C13", "_on_socket_read: a would-block error does not close the connection, any other error does", z3.Implies(n < 0, dead == (e != 11)), "postcondition")
        old = c.read_socket

        def rs(ex, st, a, I):
            x = old(ex, st, a, I)
            for s in [y[0] for y in x.alts] if isinstance(x, Alts) else [st]: s.ghost["rerr"] = s.ghost["errno"]
            return x
        ex.on(r"^cyclone::RingBuf::read_socket\(", rs)
        ex.run(st, member("_on_socket_read"), [Ptr(rid)], ret)
    return f


def t_write(props):
    def f(v):
        c = Conn(v, "_on_socket_write", props)
        c.graceful = True
        ex, st = c.ex, State()
        rid = c.start(st)
        st.ghost["in_write"] = True
        n0, w0, s0 = c.wview(st).size, st.ghost["W"], c.state(st)
        v.cover(ex, st)

        def ret(s, r):
            c.rest(s, "_on_socket_write")
            c.ob(s, "C12", "a writability event with bytes queued tries to write them", z3.Implies(z3.And(n0 != 0, w0), s.ghost.get("tried", F)), "postcondition")
            done = any(t[0] == "complete" for t in s.trace)
            n = sum(1 for t in s.trace if t[0] == "complete")
            c.ob(s, "C12", "one write-complete notification at most per event", z3.BoolVal(n <= 1), "postcondition")
            if c.alive(s) and not done:
                c.ob(s, "C12", "when the queue drains the write-complete notification is given (if one is set)", z3.Or(s.ghost["seen"] != 0 if s.ghost["seen"] is not None else T, z3.Not(w0), z3.Not(c.has(s, "m_on_send_complete"))), "postcondition")
        ex.run(st, member("_on_socket_write"), [Ptr(rid)], ret)
    return f


def t_close(props):
    def f(v):
        c = Conn(v, "_on_socket_close", props)
        ex, st = c.ex, State()
        rid = c.start(st, rest=False)
        v.cover(ex, st)

        def ret(s, r):
            c.rest(s, "_on_socket_close")
            if c.alive(s): c.ob(s, "C13", "_on_socket_close: the connection is disconnected", c.is_(s, DISCED), "postcondition")
        ex.run(st, member("_on_socket_close"), [Ptr(rid)], ret)
    return f


def t_ctor(props):
    def f(v):
        c = Conn(v, "TcpConnection()", props)
        ex, st = c.ex, State()
        rid = c.start(st)
        st.ghost.update(in_ctor=True, rbv={}, fn={}, W=F)
        r = st.wreg(rid)
        r.cells.clear()
        i, lp, ow = ex.fresh("id", 32), Ptr(0, ex.fresh("looper")), Ptr(0, ex.fresh("owner"))
        st.assume(lp.off != 0)
        v.cover(ex, st)

        def ret(s, _):
            tr = s.trace
            reg = [t for t in tr if t[0] == "register"]
            ok = len(reg) == 1
            c.ob(s, None, "construction registers the socket once", z3.BoolVal(ok))
            if not ok: return
            t = reg[0]
            c.ob(s, "C13", "construction watches the given socket for reading only", z3.And(t[1] == c.S, t[2] == 1))
            for k, n in ((3, "_on_socket_read"), (4, "_on_socket_write")):
                b = t[k]
                c.ob(s, None, f"construction registers {n} of this connection", z3.BoolVal(isinstance(b, tuple) and f"TcpConnection::{n}(" in str(b[1]) and b[2] is not None and b[2].off == 0))
            nb = [t for t in tr if t[0] == "nonblock"]
            c.ob(s, None, "the socket is made non-blocking", z3.Or(F, *[z3.And(t[1] == c.S, t[2] if z3.is_bool(t[2]) else t[2] != 0) for t in nb]))
            c.ob(s, "C13", "a new connection is connected, owns the given socket and its registration", z3.And(c.is_(s, CONN), c.field(s, "m_socket", 4) == c.S, c.field(s, "m_event_id", 4) == c.E))
            w, rd = c.wview(s), c.rview(s)
            c.ob(s, None, "a new connection has nothing queued and nothing received", z3.And(w.size == 0, rd.size == 0) if w is not None and rd is not None else F)
            c.ob(s, None, "a new connection has its send lock", z3.And(z3.BoolVal(sum(1 for t in tr if t[0] == "mutex_create") == 1), b64(c.field(s, "m_write_buf_lock", 8).off) == c.LK))
            for f_ in ("m_read_statistics", "m_write_statistics"): c.ob(s, None, f"a new connection has no statistics object ({f_})", z3.BoolVal(is_null(c.field(s, f_, 8))))
        d = [x for x in M.bydem if x.startswith("cyclone::TcpConnection::TcpConnection(int, int, ") and M.has(M.bydem[x])]
        ex.run(st, d[0], [Ptr(rid), i, c.S, lp, ow], ret)
    return f


def t_dtor(props):
    def f(v):
        c = Conn(v, "~TcpConnection()", props)
        ex, st = c.ex, State()
        rid = c.start(st)
        st.ghost.update(in_dtor=True, in_ctor=True, owner=True, deleted=T, sockclosed=T)
        c.put(st, "m_state", bv(DISCED, 32), 4)
        c.put(st, "m_event_id", bv(INVALID_EVENT, 32), 4)
        c.put(st, "m_socket", bv(INVALID_EVENT, 32), 4)
        for f_ in ("m_read_statistics", "m_write_statistics"): c.put(st, f_, Ptr(0, bv(0)), 8)

        def ret(s, _): c.ob(s, None, "the destructor destroys the send lock", z3.BoolVal(s.ghost["destroyed"]), "resource")
        d = [x for x in M.bydem if x.startswith("cyclone::TcpConnection::~TcpConnection(") and M.has(M.bydem[x])]
        ex.run(st, d[0], [Ptr(rid)], ret)
    return f


def tasks(props):
    return [("TcpConnection::send on the loop thread", t_send_loop(props)), ("TcpConnection::send from another thread", t_send_other(props)), ("TcpConnection::shutdown", t_shutdown(props)),
            ("TcpConnection::_on_socket_read", t_read(props)), ("TcpConnection::_on_socket_write", t_write(props)), ("TcpConnection::_on_socket_close", t_close(props)),
            ("TcpConnection constructor", t_ctor(props)), ("TcpConnection destructor", t_dtor(props))]


def replay(failed, errors, seed, tier):
    import os
    H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "conn_harness.cpp")
    b = bld.scheduled("conn", H, ["source/cyNetwork/network/cyn_tcp_connection.cpp", "source/cyCore/core/cyc_ring_buf.cpp", "source/cyCrypt/crypt/cyr_adler32.cpp"])
    return nat.confirm(b, [], [], seed, 40 if tier == "quick" else 600)
