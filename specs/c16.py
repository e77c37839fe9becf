"""C16: TcpServer, its master thread and its work threads.  Every function is executed symbolically from the real code, for any number of listeners, any number of
work threads and any number of connections; a loop over listeners, work threads or connections is decided by one arbitrary iteration.  The progress of a shutdown
follows from these contracts by the lemmas at the end (an abstract queue and connection state machine)."""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from dv.loops import changed_regions
from . import osm, stdfn, sptr, stl
from .osm import rec, calls

M = L = None
TITLE = "C16"
N = "source/cyNetwork/network/"
SRC = [N + "cyn_tcp_server.cpp", N + "internal/cyn_tcp_server_master_thread.cpp", N + "internal/cyn_tcp_server_work_thread.cpp", "source/cyEvent/event/cye_looper.cpp"]
SV, MT, WK = "cyclone::TcpServer", "cyclone::TcpServerMasterThread", "cyclone::TcpServerWorkThread"
FIELDS = {SV: ["m_listener", "m_master_thread", "m_work_thread_pool", "m_workthread_counts", "m_next_workthread_id", "m_running", "m_shutdown_ing", "m_next_connection_id"],
          MT: ["m_server", "m_master_thread", "m_acceptor_sockets"], WK: ["_vptr", "m_server", "m_index", "m_work_thread", "m_connections", "m_shutdown_received"]}
LISTENER = ["on_master_thread_start", "on_master_thread_command", "on_work_thread_start", "on_work_thread_command", "on_connected", "on_message", "on_close"]
INV = bv((1 << 32) - 1, 32)
SHUT, STOPL, CUSTOM = 1, 2, 10                 # commands of the master
NEWC, CLOSEC, WSHUT = 1, 2, 3                  # commands of a work thread
TRUSTED = libc.TRUST_TEXT + stdfn.TRUST + sptr.TRUST + [
    "WorkThread through its contract (C15): messages are handled once each, in the order sent per sender, on the thread; send_message copies its arguments (C06)",
    "Looper through its contract (C14): a callback runs only while registered; push_stop_request ends the loop", "TcpConnection through its contract (C12, C13): on_close is called once, when the connection is disconnected",
    "socket_api functions: the system call of that name (C21)", "std::vector: a sequence of elements in one array; std::unordered_map: a finite map; iteration visits every element once", "std::atomic<int>", "logging has no effect"]
ASSUMPTIONS = ["no message is dropped by a full queue; fewer than 2^31 connections are accepted (ids stay unique)", "every closed connection's peer answers eventually (the close of a connection is reported by the event loop)",
               "start and join are not called concurrently with other members; stop is not called inside a work thread while another thread calls it",
               "stop_listen names a bound port (asserted by the code); messages sent with the reserved command ids come from the server itself"]


def build():
    global M, L, OFF, LOFF
    M, L = bld.module(SRC)
    OFF = {}
    for c, fs in FIELDS.items():
        for f in fs:
            if f == "_vptr": continue
            try: OFF[f] = OFF.get(f) if f in OFF and f != "m_server" else L.off(c, f, fs)
            except Exception:
                if f == "m_shutdown_received": continue
                raise
            OFF[c, f] = L.off(c, f, fs)
    LOFF = {f: OFF[SV, "m_listener"] + L.off(SV + "::Listener", f, LISTENER) for f in LISTENER}


def member(cls, name, args=None):
    c = [d for d in M.bydem if re.match(rf"^{cls}::{name}\(" + (re.escape(args) if args is not None else ""), d) and M.has(M.bydem[d])]
    c = [d for d in c if re.search(r"^[^()]*\((?:[^()]|\([^()]*\))*\)( const)?$", d)]
    if len(c) != 1: raise bld.BuildError(f"{cls}::{name}: {len(c)} definitions")
    return c[0]


def lit0(x): return x is not None and (x == 0 if isinstance(x, int) else z3.is_bv_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0)


class Sv:
    def __init__(self, v, name):
        self.ex = ex = v.exec(M, name)
        libc.install(ex)
        stdfn.install(ex, self.on_call)
        sptr.install(ex, lambda *a: None)
        on = ex.on
        nop = lambda ex, st, a, I: None
        on(r"^cyclone::disk_log\(", nop)
        on(r"^(cyclone::)?noncopyable::~?noncopyable\(\)$", nop)
        on(r"^cyclone::TcpConnection::Owner::Owner\(\)$", nop)
        on(r"^snprintf$", self.snprintf)
        on(r"^std::_Bind_helper<.*std::bind<", self.bind)
        on(r"^std::function<.*>::function<(std::_Bind|cyclone::).*", self.fn_any)
        on(r"^cyclone::WorkThread::(~?WorkThread)\(\)$", self.wt_ctor)
        on(r"^cyclone::WorkThread::is_running\(\) const$", lambda ex, st, a, I: st.ghost["running"])
        on(r"^cyclone::WorkThread::get_looper\(\) const$", self.get_looper)
        on(r"^cyclone::WorkThread::send_message\(unsigned short,", self.send_bytes)
        on(r"^cyclone::WorkThread::send_message\(cyclone::Packet const\*\)$", lambda ex, st, a, I: rec(st, "packet", self.thread(st, a[0]), a[1], bv(1, 32)))
        on(r"^cyclone::WorkThread::send_message\(cyclone::Packet const\*\*, int\)$", lambda ex, st, a, I: rec(st, "packet", self.thread(st, a[0]), a[1], a[2]))
        on(r"^cyclone::WorkThread::set_on_(start|message)\(", lambda ex, st, a, I: rec(st, "set_on", self.thread(st, a[0]), re.search(r"set_on_(\w+)", ex.m.dem[I.extra.val]).group(1), stdfn.get(st, a[1])))
        on(r"^cyclone::WorkThread::start\(", lambda ex, st, a, I: rec(st, "thread_start", self.thread(st, a[0])))
        on(r"^cyclone::WorkThread::join\(\)$", lambda ex, st, a, I: rec(st, "join", self.thread(st, a[0])))
        on(r"^cyclone::Packet::get_packet_id\(\) const$", lambda ex, st, a, I: st.ghost["msg"][0])
        on(r"^cyclone::Packet::get_packet_size\(\) const$", lambda ex, st, a, I: st.ghost["msg"][1])
        on(r"^cyclone::Packet::get_packet_content\(\)( const)?$", lambda ex, st, a, I: st.ghost["msg"][2])
        on(r"^cyclone::Looper::register_event\(", self.register)
        on(r"^cyclone::Looper::delete_event\(", lambda ex, st, a, I: (self.own_looper(st, a[0], I), rec(st, "delete", a[1]), None)[2])
        on(r"^cyclone::Looper::push_stop_request\(\)$", lambda ex, st, a, I: (self.own_looper(st, a[0], I), rec(st, "stop"), None)[2])
        on(r"^cyclone::Looper::get_thread_id\(\) const$", lambda ex, st, a, I: (self.own_looper(st, a[0], I), rec(st, "tid_looper"), Ptr(0, bv(77)))[2])
        on(r"^cyclone::sys_api::thread_get_current_id\(\)$", lambda ex, st, a, I: (rec(st, "tid_current"), Ptr(0, bv(78)))[1])
        on(r"^std::operator[=!]=\(std::thread::id, std::thread::id\)$", self.tid_eq)
        on(r"^cyclone::socket_api::close_socket\(", lambda ex, st, a, I: rec(st, "close", a[0]))
        on(r"^cyclone::socket_api::listen\(", lambda ex, st, a, I: (rec(st, "listen", a[0]), ex.fresh("ok", 1))[1])
        on(r"^cyclone::socket_api::accept\(", self.accept)
        A = r"^cyclone::Address::"
        on(A + r"(~?Address)\(\)$", nop)
        on(r"^cyclone::TcpConnection::get_peer_addr\(\) const$", lambda ex, st, a, I: Ptr(0, ex.fresh("addr")))
        on(A + r"get_(ip|port)\(\) const$", lambda ex, st, a, I: Ptr(0, ex.fresh("ip")) if "ip" in ex.m.dem[I.extra.val] else ex.fresh("port", 16))
        # connections
        C = r"^cyclone::TcpConnection::"
        on(r"^.*std::make_shared<cyclone::TcpConnection", self.make_conn)
        on(C + r"get_id\(\) const$", lambda ex, st, a, I: self.conn(st, a[0], I)["id"])
        on(C + r"get_state\(\) const$", lambda ex, st, a, I: self.conn(st, a[0], I)["state"])
        on(C + r"get_owner\(\)( const)?$", lambda ex, st, a, I: self.conn(st, a[0], I)["owner"])
        on(C + r"set_on_(message|close|send_complete)\(", self.conn_set)
        on(C + r"shutdown\(\)$", self.conn_shutdown)
        # containers
        for V, k in ((r"^std::vector<std::tuple<int, unsigned int>, .*>::", "listeners"), (r"^std::vector<cyclone::TcpServerWorkThread\*, .*>::", "pool")):
            on(V + r"vector\(\)$", lambda ex, st, a, I, k=k: rec(st, "vector", k))
            on(V + r"~vector\(\)$", nop)
            on(V + r"size\(\) const$", lambda ex, st, a, I, k=k: self.count(st, k, a[0], I))
            on(V + r"empty\(\) const$", lambda ex, st, a, I, k=k: self.count(st, k, a[0], I) == 0)
            on(V + r"c?begin\(\)( const)?$", lambda ex, st, a, I, k=k: (self.count(st, k, a[0], I), Ptr(self.it[k], 0, bv(0)))[1])
            on(V + r"c?end\(\)( const)?$", lambda ex, st, a, I, k=k: Ptr(self.it[k], 0, self.count(st, k, a[0], I)))
            on(V + r"data\(\)( const)?$", lambda ex, st, a, I, k=k: (self.count(st, k, a[0], I), Ptr(self.it[k], 0, bv(0)))[1])
            on(V + r"(operator\[\]|at)\(unsigned long\)( const)?$", lambda ex, st, a, I, k=k: self.index(st, k, a, I))
            on(V + r"(front|back)\(\)( const)?$", lambda ex, st, a, I, k=k: self.index(st, k, [a[0], bv(0) if "front" in ex.m.dem[I.extra.val] else self.count(st, k, a[0], I) - 1], I))
            on(V + r"clear\(\)$", lambda ex, st, a, I, k=k: (self.count(st, k, a[0], I), st.ghost.__setitem__(k, bv(0)), rec(st, "clear", k), None)[3])
            on(V + r"reserve\(", nop)
        on(r"^std::vector<cyclone::TcpServerWorkThread\*, .*>::(push_back|emplace_back)\b.*", self.push)
        U = r"^.*\bstd::unordered_map<int, std::shared_ptr<cyclone::TcpConnection>, .*>::"
        on(U + r"unordered_map\(\)$", lambda ex, st, a, I: rec(st, "map"))
        on(U + r"~unordered_map\(\)$", nop)
        on(U + r"c?begin\(\)( const)?$", lambda ex, st, a, I: (self.mapsize(st, a[0], I), Ptr(self.it["conns"], 0, bv(0)))[1])
        on(U + r"c?end\(\)( const)?$", lambda ex, st, a, I: Ptr(self.it["conns"], 0, self.mapsize(st, a[0], I)))
        on(U + r"size\(\) const$", lambda ex, st, a, I: self.mapsize(st, a[0], I))
        on(U + r"empty\(\) const$", lambda ex, st, a, I: self.mapsize(st, a[0], I) == 0)
        on(U + r"find\(int const&\)( const)?$", self.find)
        on(U + r"count\(int const&\) const$", lambda ex, st, a, I: self.find(ex, st, a, I, bv(1), bv(0)))
        on(U + r"erase\(", self.erase)
        on(U + r"insert<.*|" + U + r"(emplace|insert)\b.*", self.insert)
        D = r"^std::__detail::"
        on(D + r"operator(==|!=)\(std::__detail::_Node_iterator_base<", self.it_eq)
        on(D + r"_Node_(const_)?iterator<.*>::_Node_(const_)?iterator\(\)$", lambda ex, st, a, I: ex.store(st, a[0], sptr.NUL, 8, I.line))
        on(D + r"_Node_(const_)?iterator<.*>::operator(->|\*)\(\) const$", self.it_deref)
        on(D + r"_Node_(const_)?iterator<.*>::operator\+\+\((int)?\)$", self.it_next)
        ex.access_hook = self.access

    def ob(self, st, name, goal, kind="postcondition", line=None):
        self.ex.oblige(st, name, goal if z3.is_expr(goal) else (T if goal else F), kind, line)

    def raw(self, f):
        h, self.ex.access_hook = self.ex.access_hook, None
        try: return f()
        finally: self.ex.access_hook = h

    def get(self, st, rid, f, size=4): return self.raw(lambda: self.ex.load_cell(st, rid, f if isinstance(f, int) else OFF[f], size, _PtrTy() if size == 8 else _IntTy(8 * size)))
    def put(self, st, rid, f, v, size=4): self.raw(lambda: self.ex.store_cell(st, rid, f if isinstance(f, int) else OFF[f], size, v))

    # ------------------------------------------------------------------ the world
    def start(self, st):
        ex = self.ex
        self.s, self.m = ex.new_reg(st, "server", "cells", L.sizeof(SV)).id, ex.new_reg(st, "master", "cells", L.sizeof(MT)).id
        st.ghost.update(fn={}, conns={}, work={}, running=ex.fresh("master_running", 1), listeners=ex.fresh("listeners"), pool=ex.fresh("workers"), conns_n=ex.fresh("connections"),
                        nodes={}, ins=[], passed=[], msg=None, me=None, new={})
        g = st.ghost
        st.assume(z3.ULT(g["listeners"], bv(1 << 20)), z3.UGE(g["pool"], bv(1)), z3.ULE(g["pool"], bv(32)), z3.ULT(g["conns_n"], bv(1 << 31)))
        self.it = {}
        fl = {"listeners": {0: ("int", 4), 4: ("int", 4)}, "pool": {0: ("ptr", 8)}, "conns": {0: ("int", 8)}}
        for k, stride in (("listeners", 8), ("pool", 8), ("conns", 8)):
            r = stl.elems(ex, st, k, g["conns_n" if k == "conns" else k], fl[k], stride)
            self.it[k] = r.id
        f = st.mem[self.it["listeners"]].fields
        self.evf, self.fdf = f[0][2], f[4][2]
        st.foralls.append((self.evf(bv(0)).decl().name(), lambda k: z3.Implies(self.fdf(k) == INV, self.evf(k) == INV)))
        self.put(st, self.s, (SV, "m_master_thread"), Ptr(self.m, 0), 8)
        self.put(st, self.m, (MT, "m_server"), Ptr(self.s, 0), 8)
        self.put(st, self.s, "m_workthread_counts", z3.simplify(z3.Extract(31, 0, g["pool"])))
        self.nw, self.nc, self.run0, self.sd0 = ex.fresh("next_worker", 32), ex.fresh("next_id", 32), ex.fresh("running", 32), ex.fresh("stopping", 32)
        for f, v in (("m_next_workthread_id", self.nw), ("m_next_connection_id", self.nc), ("m_running", self.run0), ("m_shutdown_ing", self.sd0)): self.put(st, self.s, f, v)
        st.assume(self.run0 >= 0, self.run0 <= 1, self.sd0 >= 0, self.sd0 <= 1)
        for f in LISTENER: stdfn.put(st, Ptr(self.s, LOFF[f]), stdfn.Target(f, ex.fresh("has_" + f, 1)))
        self.inw, self.w = ex.fresh("called_in_worker", 1), ex.fresh("calling_worker")
        st.assume(z3.Implies(self.inw, z3.ULT(self.w, g["pool"])))

    def has(self, st, f): return stdfn.get(st, Ptr(self.s, LOFF[f])).present

    def worker(self, st, idx):
        """the object that represents work thread `idx`"""
        idx = z3.simplify(b64(idx))
        for rid, w in st.ghost["work"].items():
            if w["idx"].eq(idx): return rid
        r = self.ex.new_reg(st, "worker", "cells", L.sizeof(WK))
        t = self.ex.new_reg(st, "thread", "cells", 1024)
        st.ghost["work"] = {**st.ghost["work"], r.id: dict(idx=idx, thread=t.id)}
        vt = self.ex.global_reg(st, "_ZTVN7cyclone19TcpServerWorkThreadE")
        self.put(st, r.id, 0, Ptr(vt, 16), 8)
        self.put(st, r.id, (WK, "m_server"), Ptr(self.s, 0), 8)
        self.put(st, r.id, "m_index", z3.simplify(z3.Extract(31, 0, idx)))
        self.put(st, r.id, "m_work_thread", Ptr(t.id, 0), 8)
        return r.id

    def thread(self, st, p):
        """which thread a WorkThread pointer names: 'master' or the index of a work thread"""
        p = self.ex.resolve(st, p)
        if p.r == self.m and p.off == OFF[MT, "m_master_thread"]: return "master"
        for w in st.ghost["work"].values():
            if p.r == w["thread"]: return w["idx"]
        self.ob(st, "a message goes to the master or a work thread", F, "callee precondition")
        raise PathEnd()

    def access(self, ex, st, p, ty, w, line):
        if p.r == self.it["pool"] and w is None: return Ptr(self.worker(st, p.idx), 0)
        if p.r == self.it["pool"]:
            self.ob(st, "the pool's entries are not overwritten", F, "postcondition", line)
            return True
        return None

    def own_looper(self, st, p, I):
        ok = st.ghost["me"] is not None and isinstance(p, Ptr) and p.r == 0 and z3.is_true(z3.simplify(b64(p.off) == self.loop_of(st.ghost["me"])))
        self.ob(st, "a thread uses only its own event loop", ok, "callee precondition", I.line)

    def loop_of(self, who): return bv(4096 if isinstance(who, str) else 8192) if isinstance(who, str) else z3.simplify((who + 4) * 4096)
    def get_looper(self, ex, st, a, I): return Ptr(0, self.loop_of(self.thread(st, a[0])))
    def wt_ctor(self, ex, st, a, I):
        if "~" not in ex.m.dem[I.extra.val]:
            q = ex.resolve(st, a[0])
            if q.r != self.m: st.ghost["new"] = {**st.ghost["new"], "thread": q.r}
            if "mkworker" in st.ghost: st.ghost["work"] = {**st.ghost["work"], st.ghost["mkworker"][0]: dict(idx=st.ghost["mkworker"][1], thread=q.r)}

    def snprintf(self, ex, st, a, I):
        q = ex.resolve(st, a[0])
        n = a[1]
        ex.check_access(st, q, n, True, I.line, "snprintf buffer")
        return ex.fresh("len", 32)

    def tid_eq(self, ex, st, a, I):
        e = st.ghost.setdefault("tid", ex.fresh("same_thread", 1))
        self.ob(st, "the current thread is compared with the thread of the worker's loop", len(calls(st, "tid_looper")) == 1 and len(calls(st, "tid_current")) == 1, "postcondition", I.line)
        return e if "==" in ex.m.dem[I.extra.val] else z3.Not(e)

    def send_bytes(self, ex, st, a, I):
        t = self.thread(st, a[0])
        n1, n2 = z3.simplify(a[2]), z3.simplify(a[4])
        self.ob(st, "a command is sent in one part", n2 == 0, "postcondition", I.line)
        self.ob(st, "the master is running when a message is sent to it", st.ghost["running"], "callee precondition", I.line) if isinstance(t, str) else None
        if z3.is_bv_value(n1): rec(st, "send", t, a[1], n1, osm.snapshot(ex, st, a[3], n1.as_long(), I.line) if n1.as_long() and not is_uninit(ex, st, a[3], n1.as_long()) else None)
        else: rec(st, "send", t, a[1], n1, a[3])

    def accept(self, ex, st, a, I):
        f = ex.fresh("accepted", 32)
        st.assume(z3.Or(f == INV, f >= 0))
        rec(st, "accept", a[0], f)
        return f

    def bind(self, ex, st, a, I):
        target, this = None, None
        for x in a:
            if isinstance(x, FnPtr): target = x.name
            if isinstance(x, Ptr) and x.r in st.mem and not (is_c(st.mem[x.r].size) and cval(st.mem[x.r].size) < 8):
                try: y = ex.load(st, x, _PtrTy())
                except Unsupported: continue
                if isinstance(y, FnPtr): target = y.name
                elif isinstance(y, Ptr) and (y.r in (self.m, self.s) or y.r in st.ghost["work"] or y.r == st.ghost.get("mkworker", (None,))[0]): this = y
        stdfn.put(st, a[0], ("bound", ex.m.dem.get(target, target), this))

    def fn_any(self, ex, st, a, I):
        t = stdfn.get(st, a[1])
        if t is None:
            m = re.search(r"function<(cyclone::TcpServer.*?(?:\$_\d+|lambda[^#]*#\d+\})), void>", ex.m.dem[I.extra.val])
            q = ex.resolve(st, a[1])
            t = ("closure", m.group(1) if m else "?", dict(st.mem[q.r].cells))
        stdfn.put(st, a[0], t)

    def register(self, ex, st, a, I):
        self.own_looper(st, a[0], I)
        i = ex.fresh("event_id", 32)
        st.assume(i != INV)
        rec(st, "register", a[1], a[2], stdfn.get(st, a[4]), stdfn.get(st, a[5]), i)
        return i

    # ------------------------------------------------------------------ containers
    def own_vec(self, st, k, p, I):
        q = self.ex.resolve(st, p)
        ok = (q.r == self.s and q.off == OFF[SV, "m_work_thread_pool"]) if k == "pool" else (q.r == self.m and q.off == OFF[MT, "m_acceptor_sockets"])
        if not ok: raise Unsupported(f"a copy of the {k} vector")

    def count(self, st, k, p, I):
        self.own_vec(st, k, p, I)
        return st.ghost[k]

    def index(self, st, k, a, I):
        self.ob(st, f"an index into the {k} is valid", z3.ULT(a[1], self.count(st, k, a[0], I)), "callee precondition", I.line)
        st.assume(z3.ULT(a[1], st.ghost[k]))
        return Ptr(self.it[k], 0, a[1])

    def push(self, ex, st, a, I):
        q = self.raw(lambda: ex.load(st, a[1], _PtrTy(), I.line))
        w = st.ghost["work"].get(q.r)
        self.ob(st, "a new work thread enters the pool under its own index", w["idx"] == st.ghost["pool"] if w and w.get("made") else F, "postcondition", I.line)
        st.ghost["pool"] = z3.simplify(st.ghost["pool"] + 1)
        rec(st, "push", q.r)

    def mapsize(self, st, p, I):
        q = self.ex.resolve(st, p)
        if not (q.r == self.wk and q.off == OFF[WK, "m_connections"]): raise Unsupported("another connection map")
        return st.ghost["conns_n"]

    def node(self, st, idx, key=None):
        """the map entry with iteration index idx"""
        idx = z3.simplify(b64(idx))
        for n, x in st.ghost["nodes"].items():
            if x["idx"].eq(idx): return n
        r = self.ex.new_reg(st, "node", "cells", 24)
        key = self.ex.fresh("conn_id", 32) if key is None else key
        cs = self.ex.fresh("conn_state", 32)
        st.assume(cs >= 1, cs <= 3)
        c = self.new_conn(st, id=key, state=cs, owner=Ptr(self.wk, 0))
        self.put(st, r.id, 0, key)
        self.put(st, r.id, 8, Ptr(c, 0), 8)
        st.ghost["nodes"] = {**st.ghost["nodes"], r.id: dict(idx=idx, key=key, conn=c, state0=cs)}
        return r.id

    def find(self, ex, st, a, I, yes=None, no=None):
        n = self.mapsize(st, a[0], I)
        k = self.ex.load(st, a[1], _IntTy(32), I.line)
        for x in st.ghost["nodes"].values():
            if x["key"].eq(k): return Ptr(self.it["conns"], 0, x["idx"]) if yes is None else yes
        hit = ex.fresh("id_present", 1)

        def found(s):
            i = ex.fresh("entry")
            s.assume(z3.ULT(i, n))
            self.node(s, i, k)
            return Ptr(self.it["conns"], 0, i) if yes is None else yes

        def absent(s):
            rec(s, "absent", k)
            return Ptr(self.it["conns"], 0, n) if no is None else no
        return osm.alts(ex, st, [(z3.And(hit, n != 0), found), (z3.Not(hit), absent)])

    def it_val(self, st, p, line=0):
        v = self.raw(lambda: self.ex.load(st, p, _PtrTy(), line))
        return v if isinstance(v, Ptr) else Ptr(0, v)

    def it_eq(self, ex, st, a, I):
        e = ex.ptr_eq(self.it_val(st, a[0]), self.it_val(st, a[1]))
        return e if "operator==" in ex.m.dem[I.extra.val] else z3.simplify(z3.Not(e))

    def it_deref(self, ex, st, a, I):
        p = self.it_val(st, a[0])
        if p.r != self.it["conns"]:
            self.ob(st, "an iterator that is dereferenced points at an entry", F, "memory", I.line)
            raise PathEnd()
        self.ob(st, "an iterator that is dereferenced points at an entry", z3.ULT(b64(p.idx), st.ghost["conns_n"]), "memory", I.line)
        n = self.node(st, p.idx)
        if st.ghost["nodes"][n].get("gone"):
            self.ob(st, "an erased entry is not used", F, "memory", I.line)
            raise PathEnd()
        return Ptr(n, 0)

    def it_next(self, ex, st, a, I):
        p = self.it_val(st, a[0])
        self.raw(lambda: ex.store(st, a[0], Ptr(p.r, p.off, z3.simplify(b64(p.idx) + 1)), 8, I.line))
        return a[0]

    def erase(self, ex, st, a, I):
        n = self.mapsize(st, a[0], I)
        nd = None
        if "int const&" in ex.m.dem[I.extra.val].split("erase(")[-1]:
            k = ex.load(st, a[1], _IntTy(32), I.line)
            for r, x in st.ghost["nodes"].items():
                if ex.valid(st, x["key"] == k): nd = r
        else:
            p = a[1] if isinstance(a[1], Ptr) and a[1].r == self.it["conns"] else self.it_val(st, a[1])
            nd = self.node(st, p.idx)
        if nd is None: raise Unsupported("erase of a key that was not looked up")
        x = st.ghost["nodes"][nd]
        self.ob(st, "an entry is erased once", not x.get("gone"), "postcondition", I.line)
        self.ob(st, "only the entry of a disconnected connection is erased", st.ghost["conns"][x["conn"]]["state"] == 3, "postcondition", I.line)
        st.ghost["nodes"] = {**st.ghost["nodes"], nd: {**x, "gone": True}}
        st.ghost["conns_n"] = z3.simplify(n - 1)
        rec(st, "erase", nd)
        return bv(1) if "int const&" in ex.m.dem[I.extra.val].split("erase(")[-1] else Ptr(self.it["conns"], 0, ex.fresh("next"))

    def insert(self, ex, st, a, I):
        n = self.mapsize(st, a[0], I)
        q = ex.resolve(st, a[1])
        key = ex.load(st, q, _IntTy(32), I.line)
        c = sptr.get(ex, st, Ptr(q.r, q.off + 8), I.line)
        rec(st, "insert", key, c)
        st.ghost["conns_n"] = z3.simplify(n + 1)
        return (Ptr(self.it["conns"], 0, ex.fresh("entry")), bv(1, 8))

    # ------------------------------------------------------------------ connections
    def new_conn(self, st, **kw):
        r = self.ex.new_reg(st, "tcpconnection", "cells", 8)
        st.ghost["conns"] = {**st.ghost["conns"], r.id: dict(cb={}, shut=0, **kw)}
        return r.id

    def conn(self, st, p, I):
        q = self.ex.resolve(st, p)
        if q.r not in st.ghost["conns"]:
            self.ob(st, "the connection exists when it is used", F, "memory", I.line)
            raise PathEnd()
        return st.ghost["conns"][q.r]

    def updc(self, st, r, **kw): st.ghost["conns"] = {**st.ghost["conns"], r: {**st.ghost["conns"][r], **kw}}

    def make_conn(self, ex, st, a, I):
        v = [ex.load(st, ex.resolve(st, x), _PtrTy() if k >= 2 else _IntTy(32)) for k, x in enumerate(a[1:])]
        self.own_looper(st, v[2], I)
        c = self.new_conn(st, id=v[0], state=bv(1, 32), owner=v[3], fd=v[1])
        rec(st, "conn", c)
        ex.store(st, a[0], Ptr(c, 0), 8, I.line)

    def conn_set(self, ex, st, a, I):
        C = self.conn(st, a[0], I)
        f = re.search(r"set_on_(\w+)\(", ex.m.dem[I.extra.val]).group(1)
        self.updc(st, ex.resolve(st, a[0]).r, cb={**C["cb"], f: stdfn.get(st, a[1])})

    def conn_shutdown(self, ex, st, a, I):
        C = self.conn(st, a[0], I)
        self.ob(st, "only a connection that is not disconnected is shut down", C["state"] != 3, "callee precondition", I.line)
        n = ex.fresh("conn_state", 32)
        st.assume(n >= 2, n <= 3)
        self.updc(st, ex.resolve(st, a[0]).r, state=n, shut=C["shut"] + 1)

    # ------------------------------------------------------------------ the application's callbacks
    def on_call(self, ex, st, t, p, args, I):
        name = getattr(t, "name", None)
        if name not in LISTENER: raise Unsupported("unknown callback")
        rec(st, name, *args[:2], args[2] if len(args) > 2 and name in LISTENER[2:4] else sptr.get(ex, st, args[2]) if len(args) > 2 else None)
        if name == "on_connected":
            c = sptr.get(ex, st, args[2]).r
            C = st.ghost["conns"].get(c)
            if C is not None:
                self.ob(st, "the connection reports its messages and its close before the application first sees it", "message" in C["cb"] and "close" in C["cb"], "postcondition", I.line)
                n = ex.fresh("conn_state", 32)
                st.assume(n >= 1, n <= 3)
                self.updc(st, c, state=n)
        return None

    # ------------------------------------------------------------------ an arbitrary message
    def message(self, st, mid, size, content=None):
        r = self.ex.new_reg(st, "packet", "cells", 64)
        c = self.ex.new_reg(st, "content", "cells", 64)
        for o, (v, n) in (content or {}).items(): self.put(st, c.id, o, v, n)
        st.ghost["msg"] = (bv(mid, 16) if isinstance(mid, int) else mid, size, Ptr(c.id, 0))
        return Ptr(r.id, 0)


def is_uninit(ex, st, p, n):
    """the byte of an empty command structure carries no value"""
    q = ex.resolve(st, p)
    r = st.mem.get(q.r)
    return n == 1 and r is not None and r.kind == "cells" and not r.cells


class Each:
    """a loop over listeners, work threads, connections or 0..count-1, decided by an arbitrary iteration"""

    def __init__(self, c, step, prefix=None, default=None): self.c, self.step, self.prefix, self.default = c, step, prefix, default

    def enter(self, ex, st, hdr, phis):
        c, line = self.c, hdr.insts[-1].line
        its = {r: k for k, r in c.it.items()}
        kinds, cells, ints, ptrs = set(), [], [], []
        for I, v in phis.items():
            if isinstance(v, Ptr) and v.r in its and lit0(v.idx): ptrs.append(I); kinds.add(its[v.r])
            elif z3.is_expr(v) and not z3.is_bool(v) and v.size() in (32, 64) and lit0(v): ints.append(I)
        for rid in st.frames[-1].allocas:
            for o, (v, n) in st.mem[rid].cells.items():
                if isinstance(v, Ptr) and v.r in its and lit0(v.idx): cells.append((rid, o, v.r)); kinds.add(its[v.r])
        if len(kinds) > 1: raise Unsupported("a loop over two containers")
        k = kinds.pop() if kinds else self.default or self.indexed(st.frames[-1].fn, hdr)
        if k is None: raise Unsupported("a loop over no known container")
        n = self.bound(st, k)
        i = ex.fresh("i")
        st.assume(z3.ULE(i, n))
        for I in phis:
            if I in ptrs: phis[I] = Ptr(phis[I].r, phis[I].off, i)
            elif I in ints: phis[I] = i if phis[I].size() == 64 else z3.simplify(z3.Extract(31, 0, i))
            else: phis[I] = ex.fresh_of(I.ty, "loop")
        for rid, o, r in cells: st.wreg(rid).cells[o] = (Ptr(r, 0, i), 8)
        g = st.ghost
        if k == "new": g["pool"] = i
        if k == "listeners":
            w = st.wreg(c.it[k])
            for o, (kind, sz, sel) in list(w.fields.items()):
                f = z3.Function(f"done.{o}!{next(ex.fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(32))
                w.fields[o] = (kind, sz, lambda x, f=f, sel=sel: z3.If(z3.ULT(x, i), f(b64(x)), sel(x)))
            w = st.mem[c.it[k]]
        if self.prefix: st.assume(self.prefix(st, k, i))
        g["passed"] = g["passed"] + [(k, i, n)]
        rec(st, "loop", k)
        return dict(k=k, i=i, n=n, mem=dict(st.mem), ints=ints, ptrs=ptrs, cells=cells, trace=len(st.trace), conns=g["conns"], pool=g["pool"])

    def indexed(self, f, hdr):
        """the container whose elements the loop reads by index"""
        ks = set()
        for b in f.loops[hdr]:
            for I in b.insts:
                n = getattr(I.extra, "val", None) if I.op in ("call", "invoke") else None
                d = self.c.ex.m.dem.get(n, "") if isinstance(n, str) else ""
                for rx, k in ((r"^std::vector<std::tuple<int, unsigned int>, .*>::", "listeners"), (r"^std::vector<cyclone::TcpServerWorkThread\*, .*>::", "pool")):
                    if re.match(rx + r"(operator\[\]|at)\(", d): ks.add(k)
        return ks.pop() if len(ks) == 1 else None

    def bound(self, st, k):
        g = st.ghost
        if k == "new": return z3.SignExt(32, g["want"])
        return g["conns_n"] if k == "conns" else g[k]

    def back(self, ex, st, hdr, phis, sv):
        c, i, line = self.c, sv["i"], hdr.insts[-1].line
        inv = lambda n, g: c.ob(st, f"loop over {sv['k']}: {n}", g, "loop invariant", line)
        for I in sv["ptrs"]: inv("the iterator moves to the next element", z3.And(z3.BoolVal(isinstance(phis[I], Ptr) and phis[I].r == c.it[sv["k"]]), b64(phis[I].idx) == i + 1) if isinstance(phis[I], Ptr) and phis[I].idx is not None else F)
        for I in sv["ints"]: inv("the index moves to the next element", phis[I] == (i + 1 if phis[I].size() == 64 else z3.Extract(31, 0, i) + 1))
        ok = {c.it["listeners"]}
        for rid, o, r in sv["cells"]:
            v = st.mem[rid].cells[o][0]
            inv("the iterator moves to the next element", z3.And(z3.BoolVal(isinstance(v, Ptr) and v.r == r), b64(v.idx) == i + 1) if isinstance(v, Ptr) and v.idx is not None else F)
            ok.add(rid)
        if not (sv["ptrs"] or sv["ints"] or sv["cells"]): raise Unsupported("a loop without an index")
        bad = [r for r in changed_regions(st, sv["mem"]) if r not in ok and r not in st.ghost["work"]]
        if bad: raise Unsupported("the loop body changes other objects: " + ", ".join(st.mem[r].name for r in bad))
        self.step(st, sv["k"], i, st.trace[sv["trace"]:], inv)
        inv("the loop ends", z3.ULT(i, sv["n"]))


def of(tr, *names): return [t for t in tr if t[0] in names]
def is_msg(t, who, mid, size): return z3.And(z3.BoolVal(isinstance(t[1], str) == isinstance(who, str)), T if isinstance(who, str) or isinstance(t[1], str) else t[1] == who, t[2] == mid, t[3] == size)


def begin(v, name, spec=None):
    c = Sv(v, name)
    st = State()
    c.wk = None
    c.start(st)
    v.cover(c.ex, st)
    if spec: c.ex.loop_specs.append((re.compile(r"^cyclone::TcpServer"), None, Each(c, *spec)))
    return c, c.ex, st


def passed(c, s, k, what):
    p = [x for x in s.ghost["passed"] if x[0] == k]
    c.ob(s, what, z3.And(z3.BoolVal(len(p) == 1), p[0][1] == p[0][2]) if p else F)


def quiet(c, s, what, *but):
    """nothing is sent, closed, registered or called back except `but`"""
    bad = [t for t in s.trace if t[0] not in but and t[0] in ("send", "packet", "delete", "close", "register", "listen", "accept", "stop", "join", "thread_start", "insert", "erase", "clear", "push", "conn", *LISTENER)]
    c.ob(s, what, not bad)


def same(c, s, *fs):
    d = dict(m_running=c.run0, m_shutdown_ing=c.sd0, m_next_workthread_id=c.nw, m_next_connection_id=c.nc)
    for f in fs: c.ob(s, f"{f} is left alone", c.get(s, c.s, f) == d[f])


# ---------------------------------------------------------------------- TcpServer
def t_ctor(v):
    c, ex, st = begin(v, "TcpServer()")
    st.wreg(c.s).cells.clear()
    st.ghost["fn"] = {}
    ex.on(r"^cyclone::TcpServerMasterThread::TcpServerMasterThread\(", lambda ex, st, a, I: rec(st, "mkmaster", a[0], a[1]))

    def ret(s, _):
        for f, w in (("m_running", 0), ("m_shutdown_ing", 0), ("m_workthread_counts", 0)): c.ob(s, f"a new server: {f} is {w}", c.get(s, c.s, f) == w)
        mk = calls(s, "mkmaster")
        c.ob(s, "a new server has its own master", len(mk) == 1 and mk[0][2].r == c.s and c.get(s, c.s, (SV, "m_master_thread"), 8).r == mk[0][1].r)
        c.ob(s, "a new server has an empty pool", [t[1] for t in calls(s, "vector")] == ["pool"])
        for f in LISTENER:
            t = stdfn.get(s, Ptr(c.s, LOFF[f]))
            c.ob(s, f"a new server has no {f} callback", z3.Not(t.present) if isinstance(t, stdfn.Target) and t.present is not None else F)
    ex.run(st, member(SV, "TcpServer"), [Ptr(c.s, 0)], ret)


def t_start(v):
    def step(st, k, i, tr, inv):
        p = of(tr, "push")
        inv("exactly one work thread is created and enters the pool per round", z3.And(z3.BoolVal(len(p) == 1 and len(of(tr, "mkworker")) == 1), st.ghost["pool"] == i + 1))
    c, ex, st = begin(v, "start", (step, None, "new"))
    st.ghost["pool"] = bv(0)
    st.ghost["want"] = n = ex.fresh("count", 32)
    st.ghost["running"] = F
    st.assume(z3.Implies(c.run0 == 0, c.sd0 == 0))

    def mk(ex, st, a, I):
        q = ex.resolve(st, a[0])
        rec(st, "mkworker", q.r)
        c.ob(st, "a work thread gets this server", a[1].r == c.s)
        c.ob(st, "the worker count is set before the first work thread runs", c.get(st, c.s, "m_workthread_counts") == n)
        st.ghost["work"] = {**st.ghost["work"], q.r: dict(idx=z3.SignExt(32, a[2]), thread=0, made=True)}
    ex.on(r"^cyclone::TcpServerWorkThread::TcpServerWorkThread\(cyclone::TcpServer\*, int\)$", mk)
    ex.on(r"^cyclone::TcpServerMasterThread::start\(\)$", lambda ex, st, a, I: (c.ob(st, "the master starts when all work threads are in the pool", z3.And(z3.BoolVal(a[0].r == c.m), st.ghost["pool"] == z3.SignExt(32, n))), rec(st, "master"), T)[2])

    def ret(s, r):
        r = r if z3.is_bool(r) else r == 1
        c.ob(s, "start succeeds exactly for 1 to 32 work threads on a server that is not running", r == z3.And(n >= 1, n <= 32, c.run0 == 0))
        ms = len(calls(s, "master"))
        c.ob(s, "start starts the master once, exactly if it succeeds", z3.BoolVal(ms == 1) == r if ms < 2 else F)
        if not ms:
            quiet(c, s, "a start that is refused changes nothing")
            c.ob(s, "a start that is refused leaves the pool alone", not s.ghost["passed"])
            same(c, s, "m_running")
        else:
            passed(c, s, "new", "start creates every work thread asked for")
            c.ob(s, "a started server is running, not stopping, and knows its work threads", z3.And(c.get(s, c.s, "m_running") == 1, c.get(s, c.s, "m_shutdown_ing") == 0, c.get(s, c.s, "m_workthread_counts") == n))
    ex.run(st, member(SV, "start"), [Ptr(c.s, 0), n], ret)


def t_stop(v):
    inside = lambda c, k: z3.And(c.inw, c.w == k)

    def step(st, k, i, tr, inv):
        inv("the work threads looked at are not the caller's", z3.Not(z3.And(c.inw, z3.ULE(c.w, i))))
        inv("nothing is sent while the caller is not known to be permitted", not of(tr, "send", "packet"))
    c, ex, st = begin(v, "stop", (step, lambda st, k, i: z3.Not(z3.And(c.inw, z3.ULT(c.w, i)))))
    st.ghost["running"] = c.run0 == 1

    def inw(ex, st, a, I):
        w = st.ghost["work"].get(ex.resolve(st, a[0]).r)
        if w is None: raise Unsupported("is_in_workthread of an unknown object")
        return inside(c, w["idx"])
    ex.on(r"^cyclone::TcpServerWorkThread::is_in_workthread\(\) const$", inw)

    def ret(s, _):
        sd = calls(s, "send")
        allowed = z3.And(c.run0 == 1, c.sd0 == 0, z3.Not(c.inw))
        c.ob(s, "stop sends one shutdown command to the master, exactly if the server runs, is not stopping and the caller is permitted", z3.BoolVal(len(sd) == 1) == allowed if len(sd) < 2 else F)
        for t in sd: c.ob(s, "stop's command is the master's shutdown command", z3.And(z3.BoolVal(t[1] == "master"), t[2] == SHUT))
        c.ob(s, "a stop that is accepted is remembered, a rejected one changes nothing", c.get(s, c.s, "m_shutdown_ing") == z3.If(allowed, bv(1, 32), c.sd0))
        same(c, s, "m_running", "m_next_workthread_id", "m_next_connection_id")
        quiet(c, s, "stop does nothing else", "send")
    ex.run(st, member(SV, "stop"), [Ptr(c.s, 0)], ret)


def t_accept_socket(v):
    c, ex, st = begin(v, "_on_accept_socket")
    fd = ex.fresh("fd", 32)
    n, cnt = c.nw, st.ghost["pool"]

    def ret(s, _):
        sd = calls(s, "send")
        c.ob(s, "an accepted socket is handed to exactly one work thread", len(sd) == 1 and not isinstance(sd[0][1], str))
        for t in sd:
            c.ob(s, "the work thread exists", z3.ULT(t[1], cnt))
            c.ob(s, "the work threads take turns", z3.Implies(n >= 0, t[1] == z3.URem(z3.ZeroExt(32, n), cnt)))
            c.ob(s, "the message is a new-connection command with the socket", z3.And(t[2] == NEWC, t[3] == 4, t[4] == fd) if t[4] is not None and t[4].size() == 32 else F)
        c.ob(s, "the turn moves on", c.get(s, c.s, "m_next_workthread_id") == n + 1)
        same(c, s, "m_running", "m_shutdown_ing", "m_next_connection_id")
        quiet(c, s, "an accepted socket is not closed or handed over twice", "send")
    ex.run(st, member(SV, "_on_accept_socket"), [Ptr(c.s, 0), fd], ret)


def t_next_id(v):
    c, ex, st = begin(v, "get_next_connection_id")

    def ret(s, r):
        c.ob(s, "every call takes the next id (one atomic increment)", z3.And(r == c.nc, c.get(s, c.s, "m_next_connection_id") == c.nc + 1))
    ex.run(st, member(SV, "get_next_connection_id"), [Ptr(c.s, 0)], ret)


def t_join(v):
    def step(st, k, i, tr, inv):
        j, d = of(tr, "join"), of(tr, "destroy")
        inv("each work thread is joined, then destroyed, once", z3.And(z3.BoolVal([t[0] for t in tr if t[0] in ("join", "destroy")] == ["join", "destroy"]), j[0][1] == i, d[0][1] == i) if len(j) == 1 and len(d) == 1 and not isinstance(j[0][1], str) else F)
    c, ex, st = begin(v, "join", (step,))
    ex.on(r"^cyclone::TcpServerWorkThread::~TcpServerWorkThread\(\)$", lambda ex, st, a, I: rec(st, "destroy", st.ghost["work"][a[0].r]["idx"]) if a[0].r in st.ghost["work"] else c.ob(st, "only work threads are destroyed", F))

    def ret(s, _):
        tr = [t for t in s.trace if t[0] in ("join", "loop", "clear")]
        c.ob(s, "join waits for the master, then for every work thread, then empties the pool", [t[:2] for t in tr if not (t[0] == "join" and t[1] != "master")] == [("join", "master"), ("loop", "pool"), ("clear", "pool")])
        passed(c, s, "pool", "join waits for every work thread")
        c.ob(s, "after join the server can be started again: it is neither running nor stopping", z3.And(c.get(s, c.s, "m_running") == 0, c.get(s, c.s, "m_shutdown_ing") == 0))
        same(c, s, "m_next_connection_id")
        quiet(c, s, "join does nothing else", "join", "clear")
    ex.run(st, member(SV, "join"), [Ptr(c.s, 0)], ret)


def t_close_conn(v):
    c, ex, st = begin(v, "shutdown_connection")
    w = ex.fresh("owner")
    st.assume(z3.ULT(w, st.ghost["pool"]))
    close_msg(c, ex, st, w, member(SV, "shutdown_connection"), lambda q: [Ptr(c.s, 0), q], "shutdown_connection")


def close_msg(c, ex, st, w, fn, args, what, cb=None):
    i = ex.fresh("id", 32)
    k = c.new_conn(st, id=i, state=ex.fresh("state", 32), owner=Ptr(c.worker(st, w), 0))
    q = ex.new_reg(st, "argument", "cells", 16)
    ex.store_cell(st, q.id, 0, 8, Ptr(k, 0))

    def ret(s, _):
        sd = calls(s, "send")
        c.ob(s, f"{what}: the connection's owner gets exactly one close command for it", z3.And(z3.BoolVal(len(sd) == 1 and not isinstance(sd[0][1], str)), sd[0][1] == w, sd[0][2] == CLOSEC, z3.Extract(31, 0, sd[0][4]) == i) if len(sd) == 1 and sd[0][4] is not None and not isinstance(sd[0][1], str) else F)
        for t in sd: c.ob(s, f"{what}: the command has the size the work thread expects", t[3] == L.sizeof(WK + "::CloseConnectionCmd"))
        if cb:
            n = calls(s, cb)
            c.ob(s, f"{what}: the application's {cb} is called once, before, if it listens", z3.BoolVal(len(n) == 1) == c.has(s, cb) if len(n) < 2 else F)
            for t in n: c.ob(s, f"{what}: {cb} gets the server, the work thread's index and the connection", z3.And(z3.BoolVal(t[1].r == c.s and t[3].r == k), t[2] == z3.Extract(31, 0, w)))
            c.ob(s, f"{what}: the application is told before the close is requested", [t[0] for t in s.trace if t[0] in (cb, "send")] in ([cb, "send"], ["send"]))
        quiet(c, s, f"{what}: nothing else happens", "send", *([cb] if cb else []))
    ex.run(st, fn, args(Ptr(q.id)), ret)


def t_pass(fn, args, want):
    """functions that only pass a message on"""
    def f(v):
        c, ex, st = begin(v, fn + " " + args)
        w, pk, n = ex.fresh("worker", 32), Ptr(0, ex.fresh("packet")), ex.fresh("count", 32)
        st.ghost["running"] = T
        k = SV if "::" not in fn else "cyclone::" + fn.split("::")[0]
        a = {SV: [Ptr(c.s, 0)], MT: [Ptr(c.m, 0)]}.get(k)
        if k == WK:
            wi = ex.fresh("w")
            st.assume(z3.ULT(wi, st.ghost["pool"]))
            a = [Ptr(c.worker(st, wi), 0)]
        who = "master"
        mid, size = ex.fresh("id", 16), ex.fresh("size", 16)
        data = Ptr(0, ex.fresh("data"))
        if want == "worker":
            st.assume(w >= 0, z3.SignExt(32, w) < st.ghost["pool"])
            a.append(w)
            who = z3.SignExt(32, w)
        if k == WK: who = wi
        bytes_ = "char" in args
        a += [mid, size, data] if bytes_ else [pk] + ([n] if "**" in args else [])
        if "**" in args: st.assume(n > 0)

        def ret(s, _):
            m = calls(s, ("send", "packet"))
            c.ob(s, "the message is passed on once, to the thread named", z3.And(z3.BoolVal(len(m) == 1 and isinstance(m[0][1], str) == isinstance(who, str)), T if isinstance(who, str) else m[0][1] == who) if len(m) == 1 and isinstance(m[0][1], str) == isinstance(who, str) else F)
            for t in m:
                if bytes_: c.ob(s, "id, size and bytes are passed on", z3.And(t[2] == mid, t[3] == size, b64(t[4].off) == b64(data.off)) if t[0] == "send" and isinstance(t[4], Ptr) else F)
                else: c.ob(s, "the packets are passed on", z3.And(b64(t[2].off) == b64(pk.off), t[3] == (n if "**" in args else 1)) if t[0] == "packet" else F)
            quiet(c, s, "nothing else happens", "send", "packet")
        cls, name = (SV, fn) if "::" not in fn else (k, fn.split("::")[1])
        ex.run(st, member(cls, name, args), a, ret)
    return f


def t_stop_listen(v):
    c, ex, st = begin(v, "stop_listen")
    i = ex.fresh("index")
    st.ghost["running"] = T
    st.assume(c.run0 == 1, z3.ULT(i, st.ghost["listeners"]))

    def ret(s, _):
        sd = calls(s, "send")
        c.ob(s, "stop_listen sends the master one stop-listen command with the index", z3.And(z3.BoolVal(sd[0][1] == "master"), sd[0][2] == STOPL, sd[0][3] == 8, sd[0][4] == i) if len(sd) == 1 and sd[0][4] is not None else F)
        quiet(c, s, "stop_listen does nothing else", "send")
    ex.run(st, member(SV, "stop_listen"), [Ptr(c.s, 0), i], ret)


# ---------------------------------------------------------------------- the master thread
def closing(c, st, tr, fd, ev, inv, what):
    """listener (fd, ev) is closed: its registration deleted first, each exactly once"""
    d, x = of(tr, "delete"), of(tr, "close")
    inv(f"{what}: its registration is deleted once, if it has one", z3.And(z3.BoolVal(len(d) <= 1), z3.BoolVal(len(d) == 1) == (ev != INV), d[0][1] == ev if d else T))
    inv(f"{what}: its socket is closed once, if it is open", z3.And(z3.BoolVal(len(x) <= 1), z3.BoolVal(len(x) == 1) == (fd != INV), x[0][1] == fd if x else T))
    inv(f"{what}: the registration goes before the socket", [t[0] for t in tr if t[0] in ("delete", "close")] in (["delete", "close"], ["close"], []))


def t_master_shutdown(v):
    def step(st, k, i, tr, inv):
        if k == "listeners":
            closing(c, st, tr, c.fdf(i), c.evf(i), inv, "each listener")
            inv("nothing is sent before the listeners are closed", not of(tr, "send"))
        elif k == "pool":
            sd = of(tr, "send")
            inv("each work thread gets exactly one shutdown command", z3.And(z3.BoolVal(len(sd) == 1 and not isinstance(sd[0][1], str)), sd[0][1] == i, sd[0][2] == WSHUT) if len(sd) == 1 and not isinstance(sd[0][1], str) else F)
            inv("no listener is open any more when the work threads are told", [t[1] for t in st.trace if t[0] == "loop"] == ["listeners", "pool"])
        else: inv("known loop", F)
    c, ex, st = begin(v, "master: shutdown command", (step,))
    st.ghost["me"] = "master"
    p = c.message(st, SHUT, ex.fresh("size", 16))

    def ret(s, _):
        passed(c, s, "listeners", "every listener is closed")
        passed(c, s, "pool", "every work thread is told to shut down")
        c.ob(s, "no listener is kept", [t[1] for t in calls(s, "clear")] == ["listeners"])
        c.ob(s, "the master's loop is asked to stop", len(calls(s, "stop")) >= 1)
        quiet(c, s, "nothing else happens", "clear", "stop", "send", "delete", "close")
    ex.run(st, member(MT, "_on_thread_message"), [Ptr(c.m, 0), p], ret)


def t_master_stop_listen(v):
    c, ex, st = begin(v, "master: stop-listen command")
    st.ghost["me"] = "master"
    i = ex.fresh("index")
    p = c.message(st, STOPL, bv(8, 16), {0: (i, 8)})
    n = st.ghost["listeners"]

    def ret(s, _):
        f = s.mem[c.it["listeners"]].fields
        k = ex.fresh("k")
        c.ob(s, "other listeners are left alone", z3.Implies(z3.And(z3.ULT(k, n), k != i), z3.And(f[0][2](k) == c.evf(k), f[4][2](k) == c.fdf(k))))
        inn = z3.ULT(i, n)
        d, x = calls(s, "delete"), calls(s, "close")
        if ex.valid(s, inn):
            closing(c, s, s.trace, c.fdf(i), c.evf(i), lambda m, g: c.ob(s, m, g), "the listener named")
            c.ob(s, "the listener is marked closed", z3.And(f[0][2](i) == INV, f[4][2](i) == INV))
        else: c.ob(s, "a stop-listen command after the shutdown does nothing", z3.And(z3.Not(inn), z3.BoolVal(not d and not x)))
        quiet(c, s, "nothing else happens", "delete", "close")
    ex.run(st, member(MT, "_on_thread_message"), [Ptr(c.m, 0), p], ret)


def t_master_other(v):
    c, ex, st = begin(v, "master: other messages")
    st.ghost["me"] = "master"
    m = ex.fresh("id", 16)
    st.assume(m != SHUT, m != STOPL)
    p = c.message(st, m, ex.fresh("size", 16))

    def ret(s, _):
        n = calls(s, "on_master_thread_command")
        c.ob(s, "an application message is given to the application once, if it listens", z3.BoolVal(len(n) == 1) == z3.And(z3.UGE(m, CUSTOM), c.has(s, "on_master_thread_command")) if len(n) < 2 else F)
        for t in n: c.ob(s, "the application gets the server and the message", t[1].r == c.s and t[2].r == p.r)
        quiet(c, s, "nothing else happens", "on_master_thread_command")
    ex.run(st, member(MT, "_on_thread_message"), [Ptr(c.m, 0), p], ret)


def t_accept_event(v):
    c, ex, st = begin(v, "_on_accept_event")
    fd = ex.fresh("listener", 32)
    ex.on(r"^cyclone::TcpServer::_on_accept_socket\(int\)$", lambda ex, st, a, I: rec(st, "hand", a[0], a[1]))

    def ret(s, _):
        ac, h = calls(s, "accept"), calls(s, "hand")
        c.ob(s, "one connection is accepted from the listener that is ready, unless the server is stopping", z3.And(z3.BoolVal(len(ac) <= 1), z3.BoolVal(len(ac) == 1) == (c.sd0 == 0), ac[0][1] == fd if ac else T))
        for a in ac: c.ob(s, "an accepted socket is handed over exactly once", z3.And(z3.BoolVal(len(h) == 1) == (a[2] != INV), h[0][2] == a[2] if h else T) if len(h) < 2 else F)
        c.ob(s, "nothing is handed over that was not accepted", bool(ac) or not h)
        quiet(c, s, "an accepted socket is not closed", "accept")
    ex.run(st, member(MT, "_on_accept_event"), [Ptr(c.m, 0), ex.fresh("event_id", 32), fd, ex.fresh("event", 32)], ret)


def t_master_start(v):
    def step(st, k, i, tr, inv):
        r, l = of(tr, "register"), of(tr, "listen")
        inv("each listener is registered once", len(r) == 1)
        if len(r) == 1:
            t = r[0]
            inv("each listener is watched for reading by the master", z3.And(t[1] == c.fdf(i), t[2] & 1 == 1, z3.BoolVal(isinstance(t[3], tuple) and t[3][0] == "bound" and "_on_accept_event(" in str(t[3][1]) and t[3][2].r == c.m)))
            inv("each listener remembers its registration", z3.And(st.mem[c.it["listeners"]].fields[0][2](i) == t[5], st.mem[c.it["listeners"]].fields[4][2](i) == c.fdf(i)))
        inv("each listener listens", z3.And(z3.BoolVal(len(l) == 1), l[0][1] == c.fdf(i)) if l else F)
    c, ex, st = begin(v, "master: _on_thread_start", (step,))
    st.ghost["me"] = "master"

    def ret(s, r):
        passed(c, s, "listeners", "every listener is opened")
        c.ob(s, "the master goes on", r if z3.is_bool(r) else r == 1)
        n = calls(s, "on_master_thread_start")
        c.ob(s, "the application is told once, if it listens", z3.BoolVal(len(n) == 1) == c.has(s, "on_master_thread_start") if len(n) < 2 else F)
        quiet(c, s, "nothing else happens", "register", "listen", "on_master_thread_start")
    ex.run(st, member(MT, "_on_thread_start"), [Ptr(c.m, 0)], ret)


def t_threads(v):
    """the master's thread is started with its own handlers"""
    c, ex, st = begin(v, "TcpServerMasterThread::start and join")
    st.ghost["running"] = F

    def handlers(s, who, this, names):
        so, ts = calls(s, "set_on"), calls(s, "thread_start")
        for f, m in names.items():
            c.ob(s, f"the thread's on_{f} is {m}", len([t for t in so if t[2] == f and isinstance(t[3], tuple) and t[3][0] == "bound" and f"::{m}(" in str(t[3][1]) and t[3][2].r == this and (t[1] == who if isinstance(t[1], str) else not isinstance(who, str))]) == 1)
        c.ob(s, "the thread is started once, after its handlers were set", [t[0] for t in s.trace if t[0] in ("set_on", "thread_start")] == ["set_on"] * len(names) + ["thread_start"])
    c.handlers = handlers

    def ret(s, r):
        handlers(s, "master", c.m, dict(start="_on_thread_start", message="_on_thread_message"))
        c.ob(s, "starting the master succeeds", r if z3.is_bool(r) else r == 1)
    ex.run(st.clone(), member(MT, "start"), [Ptr(c.m, 0)], ret)
    ex.run(st, member(MT, "join"), [Ptr(c.m, 0)], lambda s, r: c.ob(s, "joining the master joins its thread", [t[:2] for t in s.trace] == [("join", "master")]))
    return c


def t_bind(v):
    """bind adds exactly one listener that is non-blocking, close-on-exec and bound to the address, or leaves no socket behind"""
    c, ex, st = begin(v, "TcpServerMasterThread::bind_socket")
    st.ghost["running"] = F
    ap, reuse = Ptr(0, ex.fresh("bind_addr")), ex.fresh("reuse", 1)
    P = r"^cyclone::socket_api::"

    def create(ex, st, a, I):
        f = ex.fresh("fd", 32)
        st.assume(z3.Or(f == INV, f >= 0))
        return osm.alts(ex, st, [(f == INV, lambda s: (rec(s, "create", None), f)[1]), (f != INV, lambda s: (rec(s, "create", f), f)[1])])

    def option(name):
        def h(ex, st, a, I):
            ok = ex.fresh("ok", 1)
            rec(st, name, a[0], a[1] if len(a) > 1 else None, ok)
            return ok
        return h
    ex.on(P + r"create_socket\(", create)
    for n in ("set_nonblock", "set_close_onexec", "set_reuse_port", "set_reuse_addr", "bind"): ex.on(P + n + r"\(", option(n))
    ex.on(r"^cyclone::Address::get_sockaddr_in\(\) const$", lambda ex, st, a, I: a[0])
    ex.on(r".*std::vector<std::tuple<int, unsigned int>, .*>::(push_back|emplace_back)\b.*", lambda ex, st, a, I: (c.count(st, "listeners", a[0], I), rec(st, "listener", [ex.load(st, Ptr(q.r, q.off + o), _IntTy(32), I.line) for q in [ex.resolve(st, a[1])] for o in (0, 4)] if len(a) == 2 else [ex.load(st, x, _IntTy(32), I.line) for x in (a[2], a[1])]), None)[2])

    def ret(s, r):
        r = r if z3.is_bool(r) else r == 1
        cr, b, add, cl = calls(s, "create"), calls(s, "bind"), calls(s, "listener"), calls(s, "close")
        c.ob(s, "one socket is made", len(cr) == 1)
        fd = cr[0][1] if cr else None
        c.ob(s, "bind reports success exactly if a listener was added", r == z3.BoolVal(len(add) == 1))
        c.ob(s, "at most one listener is added", len(add) <= 1)
        if len(add) == 1:
            vals = add[0][1]
            c.ob(s, "the listener is the new socket, not registered yet", z3.And(vals[1] == fd, vals[0] == INV))
            nb, ce = calls(s, "set_nonblock"), calls(s, "set_close_onexec")
            c.ob(s, "the listener is non-blocking", z3.And(nb[0][1] == fd, nb[0][2] if z3.is_bool(nb[0][2]) else nb[0][2] == 1, nb[0][3]) if len(nb) == 1 else F)
            c.ob(s, "the listener is closed on exec", z3.And(ce[0][1] == fd, ce[0][2] if z3.is_bool(ce[0][2]) else ce[0][2] == 1) if len(ce) == 1 else F)
            c.ob(s, "the listener is bound to the address once", z3.And(b[0][1] == fd, b[0][3], z3.BoolVal(b[0][2].r == ap.r), b64(b[0][2].off) == b64(ap.off)) if len(b) == 1 else F)
            ra = of(s.trace, "set_reuse_addr", "set_reuse_port")
            on = z3.And([z3.And(t[1] == fd, t[2] if z3.is_bool(t[2]) else t[2] == 1) for t in ra]) if ra else T
            c.ob(s, "address and port are reused exactly if asked", z3.And(on, reuse == z3.BoolVal(sorted(t[0] for t in ra) == ["set_reuse_addr", "set_reuse_port"]), z3.BoolVal(len(ra) in (0, 2))))
            c.ob(s, "a listener that was added stays open", not cl)
        elif fd is not None: c.ob(s, "a bind that fails leaves no socket open", z3.And(z3.BoolVal(len(cl) == 1), cl[0][1] == fd) if cl else F, "resource")
        else: c.ob(s, "nothing is closed if no socket was made", not cl)
    ex.run(st, member(MT, "bind_socket"), [Ptr(c.m, 0), ap, reuse], ret)


def t_bind_addr(v):
    """get_bind_address: the address of the listener's socket; the default address for an index that names no open listener"""
    c, ex, st = begin(v, "TcpServerMasterThread::get_bind_address")
    out = ex.new_reg(st, "address", "cells", 48)
    i = ex.fresh("index")
    ex.on(r"^cyclone::Address::Address\(\)$", lambda ex, st, a, I: st.ghost.__setitem__("addr", {**st.ghost.get("addr", {}), ex.resolve(st, a[0]).r: "default"}))

    def name(ex, st, a, I):
        q = ex.resolve(st, a[1])
        ok = ex.fresh("named", 1)
        st.ghost["named"] = (a[0], q.r, ok)
        return ok
    ex.on(r"^cyclone::socket_api::getsockname\(", name)

    def from_sa(ex, st, a, I):
        n = st.ghost.get("named")
        c.ob(st, "an address is made only from a socket name that was read", z3.And(z3.BoolVal(n[1] == ex.resolve(st, a[1]).r), n[2]) if n else F, "memory", I.line)
        st.ghost["addr"] = {**st.ghost.get("addr", {}), ex.resolve(st, a[0]).r: n[0] if n else None}
    ex.on(r"^cyclone::Address::Address\(sockaddr_in const&\)$", from_sa)
    ex.on(r"^cyclone::Address::Address\(cyclone::Address const&\)$", lambda ex, st, a, I: st.ghost.__setitem__("addr", {**st.ghost.get("addr", {}), ex.resolve(st, a[0]).r: st.ghost["addr"].get(ex.resolve(st, a[1]).r)}))
    ex.on(r"^cyclone::Address::operator=\(cyclone::Address const&\)$", lambda ex, st, a, I: (st.ghost.__setitem__("addr", {**st.ghost.get("addr", {}), ex.resolve(st, a[0]).r: st.ghost["addr"].get(ex.resolve(st, a[1]).r)}), a[0])[1])

    def ret(s, _):
        g, n = s.ghost.get("addr", {}).get(out.id), s.ghost.get("named")
        if isinstance(g, str): c.ob(s, "the default address is returned only if the index names no listener, or its socket has no name", z3.Or(z3.UGE(i, s.ghost["listeners"]), z3.And(c.fdf(i) == n[0], z3.Not(n[2])) if n else F))
        else: c.ob(s, "the address returned is that of the listener with the index", z3.And(z3.ULT(i, s.ghost["listeners"]), g == c.fdf(i)) if g is not None else F)
        quiet(c, s, "nothing else happens")
    ex.run(st, member(MT, "get_bind_address"), [Ptr(out.id), Ptr(c.m, 0), i], ret)


# ---------------------------------------------------------------------- a work thread
def wbegin(v, name, spec=None, flag=None):
    c, ex, st = begin(v, name, spec)
    c.wi = ex.fresh("this_worker")
    st.assume(z3.ULT(c.wi, st.ghost["pool"]))
    c.wk = c.worker(st, c.wi)
    st.ghost["me"] = z3.simplify(c.wi)
    c.flag = ex.fresh("shutdown_received", 8)
    st.assume(z3.ULE(c.flag, 1))
    c.pre = ex.fresh("stop_requested", 1)
    c.n0 = st.ghost["conns_n"]
    st.assume(z3.Implies(z3.And(c.flag == 1, c.n0 == 0), c.pre))
    if (WK, "m_shutdown_received") in OFF: c.put(st, c.wk, "m_shutdown_received", c.flag, 1)
    ex.on(r"^cyclone::TcpServerWorkThread::is_in_workthread\(\) const$", lambda ex, st, a, I: T)
    return c, ex, st


def winv(c, s, flag):
    """after every message: told to shut down and no connection left <=> the loop was asked to stop"""
    n = s.ghost["conns_n"]
    sp = calls(s, "stop")
    if (WK, "m_shutdown_received") in OFF: c.ob(s, "the shutdown is remembered", (c.get(s, c.wk, "m_shutdown_received", 1) != 0) == (flag == 1))
    c.ob(s, "a work thread that was told to shut down and has no connection left is asked to stop", z3.Implies(z3.And(flag == 1, n == 0), z3.Or(c.pre, z3.BoolVal(len(sp) > 0))))
    if sp: c.ob(s, "a work thread is asked to stop only when it was told to shut down and has no connection left", z3.And(flag == 1, n == 0))


def t_new(v):
    c, ex, st = wbegin(v, "worker: new-connection command")
    fd = ex.fresh("fd", 32)
    st.assume(c.flag == 0)
    p = c.message(st, NEWC, bv(4, 16), {0: (fd, 4)})
    c.later = []

    def ret(s, _):
        cs = calls(s, "conn")
        c.ob(s, "one connection is made for the socket", len(cs) == 1)
        if len(cs) != 1: return
        k = cs[0][1]
        C = s.ghost["conns"][k]
        c.ob(s, "the connection takes the socket and a new id and belongs to this work thread", z3.And(C["fd"] == fd, C["id"] == c.nc, c.get(s, c.s, "m_next_connection_id") == c.nc + 1, z3.BoolVal(C["owner"].r == c.wk)))
        ins = calls(s, "insert")
        c.ob(s, "the connection is kept under its id, once", z3.And(z3.BoolVal(len(ins) == 1 and ins[0][2].r == k), ins[0][1] == C["id"]) if len(ins) == 1 else F)
        n = calls(s, "on_connected")
        c.ob(s, "the application is told once, if it listens", z3.BoolVal(len(n) == 1) == c.has(s, "on_connected") if len(n) < 2 else F)
        for t in n: c.ob(s, "the application gets the server, the index and the connection", z3.And(z3.BoolVal(t[1].r == c.s and t[3].r == k), t[2] == z3.Extract(31, 0, c.wi)))
        quiet(c, s, "nothing else happens", "conn", "insert", "on_connected")
        winv(c, s, c.flag)
        for f in ("message", "close"):
            t = C["cb"].get(f)
            c.ob(s, f"the connection's on_{f} is set", isinstance(t, tuple) and t[0] == "closure")
            if isinstance(t, tuple) and t[0] == "closure": c.later.append((s.clone(), t, f))
    ex.run(st, member(WK, "_on_workthread_message"), [Ptr(c.wk, 0), p], ret)
    seen = set()
    for s, t, f in c.later:
        if (t[1], f) in seen: continue
        seen.add((t[1], f))
        d = [x for x in M.bydem if x.startswith(t[1] + "::operator()(std::shared_ptr") and M.has(M.bydem[x])]
        c.ob(s, f"the connection's on_{f} is a function of the work thread", len(d) == 1)
        if len(d) != 1: continue
        r = ex.new_reg(s, "closure", "cells", 32)
        for o, (x, n) in t[2].items(): ex.store_cell(s, r.id, o, n, x)
        s.trace = []
        if f == "close":
            close_msg(c, ex, s, c.wi, d[0], lambda q: [Ptr(r.id), q], "close of a connection", "on_close")
            continue
        k = c.new_conn(s, id=ex.fresh("id", 32), state=bv(1, 32), owner=Ptr(c.wk, 0))
        q = ex.new_reg(s, "argument", "cells", 16)
        ex.store_cell(s, q.id, 0, 8, Ptr(k, 0))

        def mret(x, _):
            n = calls(x, "on_message")
            c.ob(x, "a message is given to the application once, if it listens", z3.BoolVal(len(n) == 1) == c.has(x, "on_message") if len(n) < 2 else F)
            for t in n: c.ob(x, "on_message gets the server, the index and the connection", z3.And(z3.BoolVal(t[1].r == c.s and t[3].r == k), t[2] == z3.Extract(31, 0, c.wi)))
            quiet(c, x, "on_message: nothing else happens", "on_message")
        ex.run(s, d[0], [Ptr(r.id), Ptr(q.id)], mret)


def t_close(v):
    c, ex, st = wbegin(v, "worker: close-connection command")
    k = ex.fresh("id", 32)
    sz = L.sizeof(WK + "::CloseConnectionCmd")
    p = c.message(st, CLOSEC, bv(sz, 16), {0: (k, 4), **({4: (ex.fresh("rest", 32), 4)} if sz == 8 else {})})

    def ret(s, _):
        winv(c, s, c.flag)
        quiet(c, s, "nothing else happens", "stop", "erase")
        nd = list(s.ghost["nodes"].values())
        c.ob(s, "a close command looks up the connection it names", len(nd) == 1 or len(calls(s, "absent")) == 1)
        for a in calls(s, "absent"): c.ob(s, "the id looked up is the one named", a[1] == k)
        for x in nd:
            C = s.ghost["conns"][x["conn"]]
            c.ob(s, "the id looked up is the one named", x["key"] == k)
            c.ob(s, "a connected connection is shut down", z3.BoolVal(C["shut"] == 1) == (x["state0"] == 1) if C["shut"] < 2 else F)
            c.ob(s, "the entry of a disconnected connection is erased", z3.Implies(x["state0"] == 3, z3.BoolVal(bool(x.get("gone")))))
    ex.run(st, member(WK, "_on_workthread_message"), [Ptr(c.wk, 0), p], ret)


def t_shutdown(v):
    def step(st, k, i, tr, inv):
        inv("known loop", k == "conns")
        nd = [x for x in st.ghost["nodes"].values() if x["idx"].eq(i)]
        inv("each connection is looked at", len(nd) == 1)
        for x in nd:
            C = st.ghost["conns"][x["conn"]]
            inv("each connection that is connected is shut down", z3.BoolVal(C["shut"] == 1) == (x["state0"] == 1) if C["shut"] < 2 else F)
        inv("the map is left alone", not of(tr, "erase", "insert", "stop"))
    c, ex, st = wbegin(v, "worker: shutdown command", (step,))
    p = c.message(st, WSHUT, ex.fresh("size", 16))

    def ret(s, _):
        if calls(s, "loop"): passed(c, s, "conns", "every connection is shut down")
        else: c.ob(s, "every connection is shut down", c.n0 == 0)
        winv(c, s, bv(1, 8))
        quiet(c, s, "nothing else happens", "stop")
    ex.run(st, member(WK, "_on_workthread_message"), [Ptr(c.wk, 0), p], ret)


def t_other(v):
    c, ex, st = wbegin(v, "worker: other messages")
    m = ex.fresh("id", 16)
    st.assume(m != NEWC, m != CLOSEC, m != WSHUT)
    p = c.message(st, m, ex.fresh("size", 16))

    def ret(s, _):
        n = calls(s, "on_work_thread_command")
        c.ob(s, "an application message is given to the application once, if it listens", z3.BoolVal(len(n) == 1) == c.has(s, "on_work_thread_command") if len(n) < 2 else F)
        for t in n: c.ob(s, "the application gets the server, the index and the message", z3.And(z3.BoolVal(t[1].r == c.s and isinstance(t[3], Ptr) and t[3].r == p.r), t[2] == z3.Extract(31, 0, c.wi)))
        winv(c, s, c.flag)
        quiet(c, s, "nothing else happens", "on_work_thread_command")
    ex.run(st, member(WK, "_on_workthread_message"), [Ptr(c.wk, 0), p], ret)


def t_wstart(v):
    c, ex, st = wbegin(v, "worker: _on_workthread_start")

    def ret(s, r):
        c.ob(s, "the work thread goes on", r if z3.is_bool(r) else r == 1)
        n = calls(s, "on_work_thread_start")
        c.ob(s, "the application is told once, if it listens", z3.BoolVal(len(n) == 1) == c.has(s, "on_work_thread_start") if len(n) < 2 else F)
        quiet(c, s, "nothing else happens", "on_work_thread_start")
    ex.run(st, member(WK, "_on_workthread_start"), [Ptr(c.wk, 0)], ret)


def t_getconn(v):
    c, ex, st = wbegin(v, "get_connection")
    k = ex.fresh("id", 32)
    q = ex.new_reg(st, "result", "cells", 16)

    def ret(s, _):
        p = sptr.get(ex, s, Ptr(q.id))
        nd = list(s.ghost["nodes"].values())
        c.ob(s, "get_connection finds exactly the connection with the id", z3.And(z3.BoolVal(len(nd) == 1 and p.r == nd[0]["conn"]), nd[0]["key"] == k) if nd else z3.BoolVal(is_null(p) and len(calls(s, "absent")) == 1))
        quiet(c, s, "get_connection changes nothing")
    ex.run(st, member(WK, "get_connection"), [Ptr(q.id), Ptr(c.wk, 0), k], ret)


def t_inwork(v):
    c, ex, st = begin(v, "is_in_workthread, join")
    wi = ex.fresh("this_worker")
    st.assume(z3.ULT(wi, st.ghost["pool"]))
    w = c.worker(st, wi)
    st.ghost["me"] = z3.simplify(wi)
    st.ghost["tid"] = e = ex.fresh("same_thread", 1)
    ex.run(st.clone(), member(WK, "is_in_workthread"), [Ptr(w, 0)], lambda s, r: c.ob(s, "is_in_workthread tells whether the caller runs on the worker's thread", z3.And(z3.BoolVal(len(calls(s, "tid_looper")) == 1), (r if z3.is_bool(r) else r == 1) == e)))
    ex.run(st, member(WK, "join"), [Ptr(w, 0)], lambda s, r: c.ob(s, "joining a work thread joins its thread", z3.And(z3.BoolVal(len(s.trace) == 1 and s.trace[0][0] == "join" and not isinstance(s.trace[0][1], str)), s.trace[0][1] == wi) if s.trace and not isinstance(s.trace[0][1], str) else F))


def t_wctor(v):
    c, ex, st = begin(v, "TcpServerWorkThread()")
    r = ex.new_reg(st, "worker", "cells", L.sizeof(WK))
    i = ex.fresh("index", 32)
    st.ghost["mkworker"] = (r.id, z3.SignExt(32, i))

    def ret(s, _):
        c.ob(s, "a new work thread knows its server and index", z3.And(z3.BoolVal(c.get(s, r.id, (WK, "m_server"), 8).r == c.s), c.get(s, r.id, "m_index") == i))
        c.ob(s, "a new work thread has its own thread", c.get(s, r.id, "m_work_thread", 8).r == s.ghost["new"].get("thread"))
        c.ob(s, "a new work thread has no connection", len(calls(s, "map")) == 1)
        if (WK, "m_shutdown_received") in OFF: c.ob(s, "a new work thread was not told to shut down", c.get(s, r.id, "m_shutdown_received", 1) == 0)
        so = calls(s, "set_on")
        for f, m in dict(start="_on_workthread_start", message="_on_workthread_message").items():
            c.ob(s, f"the thread's on_{f} is {m}", len([t for t in so if t[2] == f and isinstance(t[3], tuple) and t[3][0] == "bound" and f"::{m}(" in str(t[3][1]) and t[3][2].r == r.id]) == 1)
        c.ob(s, "the thread is started once, after its handlers were set", [t[0] for t in s.trace if t[0] in ("set_on", "thread_start")] == ["set_on"] * 2 + ["thread_start"])
    ex.run(st, member(WK, "TcpServerWorkThread"), [Ptr(r.id), Ptr(c.s, 0), i], ret)


# ---------------------------------------------------------------------- lemmas over the contracts
def t_lemmas(v):
    """One arbitrary accepted socket / connection of one arbitrary work thread, whose queue is first-in first-out per sender.
    forwarded: the master has sent this worker its shutdown command; told: the worker has handled it; queued: a new-connection command is in the queue before it;
    inmap: the connection is in the map; st: its state; pend: close commands queued for it; firing: its close is being reported."""
    ex = v.exec(M, "lemmas: progress of a shutdown")
    st = State()
    v.cover(ex, st)
    B = lambda n: z3.Bool(n)
    def ob(n, g): ex.oblige(State(), n, g, "lemma")

    def vars(s): return dict(listening=B("listening" + s), forwarded=B("forwarded" + s), told=B("told" + s), queued=B("queued" + s), inmap=B("inmap" + s), st=z3.BitVec("st" + s, 32), pend=z3.Int("pend" + s))
    a, b = vars("0"), vars("1")
    def inv(x): return z3.And(x["st"] >= 1, x["st"] <= 3, x["pend"] >= 0, z3.Implies(x["forwarded"], z3.Not(x["listening"])), z3.Implies(x["told"], z3.And(x["forwarded"], z3.Not(x["queued"]))),
                              z3.Implies(z3.And(x["inmap"], x["st"] == 3), x["pend"] >= 1), z3.Implies(z3.And(x["inmap"], x["told"]), x["st"] != 1), z3.Not(z3.And(x["queued"], x["inmap"])))
    def keep(*ks): return z3.And(*[a[k] == b[k] for k in a if k not in ks])
    T_ = {"a socket is accepted": z3.And(a["listening"], z3.Not(a["inmap"]), z3.Not(a["queued"]), b["queued"], keep("queued")),
          "the master shuts down": z3.And(b["forwarded"], z3.Not(b["listening"]), keep("forwarded", "listening")),
          "a new-connection command is handled": z3.And(a["queued"], z3.Not(b["queued"]), b["inmap"], b["st"] >= 1, b["st"] <= 3, b["pend"] == z3.If(b["st"] == 3, 1, 0), keep("queued", "inmap", "st", "pend")),
          "the shutdown command is handled": z3.And(a["forwarded"], z3.Not(a["queued"]), b["told"], z3.If(z3.And(a["inmap"], a["st"] == 1), z3.And(b["st"] >= 2, b["st"] <= 3, b["pend"] == a["pend"] + z3.If(b["st"] == 3, 1, 0)), z3.And(b["st"] == a["st"], b["pend"] == a["pend"])), keep("told", "st", "pend")),
          "the connection is disconnected": z3.And(a["inmap"], a["st"] < 3, b["st"] == 3, b["pend"] == a["pend"] + 1, keep("st", "pend")),
          "a close is requested": z3.And(b["pend"] == a["pend"] + 1, keep("pend")),
          "a close command is handled": z3.And(a["inmap"], a["pend"] >= 1, z3.If(a["st"] == 3, z3.And(z3.Not(b["inmap"]), b["st"] == 3, b["pend"] == a["pend"] - 1),
                                               z3.And(b["inmap"], z3.If(a["st"] == 1, b["st"] >= 2, b["st"] == a["st"]), b["st"] <= 3, b["pend"] == a["pend"] - 1 + z3.If(z3.And(b["st"] == 3), 1, 0))), keep("inmap", "st", "pend"))}
    for n, t in T_.items(): ob(f"invariant preserved when {n}", z3.Implies(z3.And(inv(a), t), inv(b)))
    ob("the initial state satisfies the invariant", z3.Implies(z3.And(z3.Not(a["forwarded"]), z3.Not(a["told"]), z3.Not(a["queued"]), z3.Not(a["inmap"]), a["st"] == 1, a["pend"] == 0), inv(a)))
    ob("no connection arrives after the work thread was told to shut down", z3.Implies(z3.And(inv(a), a["told"], T_["a new-connection command is handled"]), F))
    ob("every connection left after the shutdown command is closing, or its close command is queued", z3.Implies(z3.And(inv(a), a["told"], a["inmap"]), z3.Or(a["st"] == 2, a["pend"] >= 1)))
    ob("with no disconnect and no close command outstanding, no connection is left", z3.Implies(z3.And(inv(a), a["told"], a["st"] != 2, a["pend"] == 0), z3.Not(a["inmap"])))


def tasks(tier):
    o = [("TcpServer constructor", t_ctor), ("TcpServer::start", t_start), ("TcpServer::stop", t_stop), ("TcpServer::_on_accept_socket", t_accept_socket), ("TcpServer::get_next_connection_id", t_next_id),
         ("TcpServer::join", t_join), ("TcpServer::shutdown_connection", t_close_conn), ("TcpServer::stop_listen", t_stop_listen),
         ("master: shutdown command", t_master_shutdown), ("master: stop-listen command", t_master_stop_listen), ("master: other messages", t_master_other), ("master: _on_accept_event", t_accept_event),
         ("master: _on_thread_start", t_master_start), ("master: start, join", t_threads), ("master: bind_socket", t_bind), ("master: get_bind_address", t_bind_addr),
         ("worker: new-connection command", t_new), ("worker: close-connection command", t_close), ("worker: shutdown command", t_shutdown), ("worker: other messages", t_other), ("worker: _on_workthread_start", t_wstart),
         ("worker: get_connection", t_getconn), ("worker: is_in_workthread, join", t_inwork), ("worker: constructor", t_wctor), ("lemmas", t_lemmas)]
    P = "cyclone::Packet const*"
    B = "unsigned short, unsigned short, char const*)"
    for fn, args, want in [("send_master_message", B, "master"), ("send_master_message", P + ")", "master"), ("send_work_message", "int, " + P + ")", "worker"), ("send_work_message", "int, " + P + "*, int)", "worker"),
                           ("TcpServerMasterThread::send_thread_message", B, "master"), ("TcpServerMasterThread::send_thread_message", P + ")", "master"), ("TcpServerMasterThread::send_thread_message", P + "*, int)", "master"),
                           ("TcpServerWorkThread::send_thread_message", B, "self"), ("TcpServerWorkThread::send_thread_message", P + ")", "self"), ("TcpServerWorkThread::send_thread_message", P + "*, int)", "self")]:
        o.append((f"{fn}({args}", t_pass(fn, args.replace("int, ", "int, ", 1), want)))
    return o


def replay(failed, errors, seed, tier):
    H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "server_harness.cpp")
    b = bld.native("server", H, SRC[:3] + ["source/cyCore/core/cyc_ring_buf.cpp", "source/cyEvent/event/cye_packet.cpp", "source/cyNetwork/network/cyn_address.cpp", "source/cyCrypt/crypt/cyr_adler32.cpp"], flags=nat.ASAN)
    return nat.confirm(b, [], [], seed, 20 if tier == "quick" else 300)
