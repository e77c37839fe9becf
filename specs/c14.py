"""C14  the event loop dispatches exactly what is registered and ready

The channel table is abstract: channel i is handed out as its own object with arbitrary contents satisfying the table invariant, so each function is proved
for a table of any size.  Table invariant (free(i) = slot i carries no registration):
  id(i) = i;  free(i) => no interest, not active;  registered => (active <=> interest <> 0 <=> the kernel watches fd(i), with exactly the mask of the enabled
  interests that have a callback, and reports i for it);  the free list starts at m_free_head, stays in free slots, no slot is the successor of two, none of m_free_head.
Every operation is executed from the real code down to epoll_ctl."""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from dv.loops import Restart
from . import osm, stdfn
from .osm import rec

M = L = None
SRC = ["source/cyEvent/event/cye_looper.cpp", "source/cyEvent/event/internal/cye_looper_epoll.cpp"]
TRUSTED = libc.TRUST_TEXT + stdfn.TRUST + [
    "epoll: ADD either registers the descriptor or fails; MOD and DEL of a registered open descriptor succeed; epoll_wait reports at most the given number of events, each for a registered descriptor with the data it was registered with",
    "std::vector members size, operator[], reserve, push_back, resize, clear, begin", "timerfd_create/timerfd_settime", "sys_api mutex: mutual exclusion", "Pipe (C20)"]
ASSUMPTIONS = ["operations get the id of a live registration or INVALID_EVENT_ID; a descriptor is registered once and is closed only after its registration was deleted",
               "fewer than 2^30 registrations", "callbacks do not throw", "loop counter below 2^63"]
INV = (1 << 32) - 1
CH = "cyclone::Looper::channel_s"
EPIN, EPOUT, EPERR, EPHUP, EPRDHUP = 1, 4, 8, 16, 0x2000
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)


def build():
    global M, L, O, C, LOOPF
    M, L = bld.module(SRC)
    LOOPF = {f: L.off("cyclone::Looper", f) for f in ("m_channelBuffer", "m_free_head", "m_loop_counts", "m_inner_pipe", "m_inner_pipe_touched", "m_quit_cmd", "m_lock")}
    for f in ("m_events", "m_eoll_fd"): LOOPF[f] = L.off("cyclone::Looper_epoll", f)
    C = {f: L.off(CH, f) for f in ("id", "fd", "event", "param", "active", "timer", "on_read", "on_write", "next")}
    try: C["born"] = L.off(CH, "born")
    except bld.BuildError: pass


def find(p): return osm.find(M, p)


def member(cls, name):
    c = [d for d in M.bydem if re.match(rf"^cyclone::{cls}::{re.escape(name)}\(", d) and M.has(M.bydem[d])]
    if not c: raise bld.BuildError(f"{cls}::{name} not found")
    return c[0]


def maskof(ev, hr, hw):
    return z3.If(z3.And(ev & 1 != 0, hr), bv(EPIN | EPRDHUP, 32), bv(0, 32)) | z3.If(z3.And(ev & 2 != 0, hw), bv(EPOUT, 32), bv(0, 32))


class Table:
    """an arbitrary table: field functions of the slot number"""
    def __init__(self, ex, n):
        t = ex.fresh("t").decl().name()
        f = lambda nm, s: z3.Function(f"{nm}.{t}", B64, s)
        self.n = n
        self.fd, self.event, self.next = f("fd", B32), f("event", B32), f("next", B32)
        self.param, self.born, self.bornok = f("param", B64), f("born", B64), f("same", z3.BoolSort())
        self.timer, self.hasr, self.hasw, self.live = f("timer", z3.BoolSort()), f("has_read", z3.BoolSort()), f("has_write", z3.BoolSort()), f("live", z3.BoolSort())


class Lp:
    def __init__(self, v, name, intercept_ops=False):
        self.ex = ex = v.exec(M, name)
        self.dispatch = intercept_ops
        libc.install(ex)
        stdfn.install(ex, self.on_call)
        on = ex.on
        nop = lambda ex, st, a, I: None
        on(r"^cyclone::disk_log\(", nop)
        on(r"^cyclone::sys_api::mutex_create\(\)$", lambda ex, st, a, I: Ptr(0, bv(0x4000)))
        on(r"^cyclone::sys_api::mutex_destroy\(", nop)
        on(r"^cyclone::sys_api::mutex_lock\(", self.lock)
        on(r"^cyclone::sys_api::mutex_unlock\(", self.unlock)
        on(r"^cyclone::sys_api::thread_get_current_id\(\)$", lambda ex, st, a, I: ex.fresh("tid"))
        on(r"^std::operator[=!]=\(std::thread::id, std::thread::id\)$", lambda ex, st, a, I: T if "==" in ex.m.dem[I.extra.val] else F)
        V = r"^std::vector<cyclone::Looper::channel_s, .*>::"
        on(V + r"operator\[\]\(unsigned long\)( const)?$", self.at)
        on(V + r"(at|data|begin|end|back|front)\(", self.unsup)
        on(V + r"size\(\) const$", lambda ex, st, a, I: st.ghost["n"])
        on(V + r"reserve\(", self.reserve)
        on(V + r"push_back\(", self.push_channel)
        on(V + r"vector\(\)$", lambda ex, st, a, I: st.ghost.__setitem__("n", bv(0)))
        on(V + r"~vector\(\)$", nop)
        V = r"^std::vector<unsigned int, .*>::"
        on(V + r"vector\(\)$", self.l_new)
        on(V + r"~vector\(\)$", nop)
        on(V + r"clear\(\)$", self.l_new)
        on(V + r"size\(\) const$", lambda ex, st, a, I: self.lst(st, a[0])["size"])
        on(V + r"empty\(\) const$", lambda ex, st, a, I: z3.simplify(self.lst(st, a[0])["size"] == 0))
        on(V + r"operator\[\]\(unsigned long\)( const)?$", self.l_at)
        on(V + r"push_back\(", self.l_push)
        on(V + r"begin\(\)( const)?$", lambda ex, st, a, I: Ptr(self.lreg(st, a[0]), bv(0)))
        on(V + r"end\(\)( const)?$", lambda ex, st, a, I: Ptr(self.lreg(st, a[0]), z3.simplify(self.lst(st, a[0])["size"] * 4)))
        V = r"^(bool )?__gnu_cxx::__normal_iterator<unsigned int( const)?\*, .*>::"
        on(V + r"operator\*\(\) const$", self.it_at)
        on(V + r"operator\+\+\((int)?\)$", self.it_next)
        for o, neg in (("==", False), ("!=", True)):
            on(r"^(bool )?__gnu_cxx::operator" + o + r" ?<unsigned int( const)?\*, ", lambda ex, st, a, I, neg=neg: self.it_eq(st, a, neg))
        V = r"^std::vector<epoll_event, .*>::"
        on(V + r"vector\(unsigned long,", lambda ex, st, a, I: st.ghost.__setitem__("nev", a[1]))
        on(V + r"~vector\(\)$", nop)
        on(V + r"size\(\) const$", lambda ex, st, a, I: st.ghost["nev"])
        on(V + r"resize\(unsigned long\)$", self.ev_resize)
        on(V + r"begin\(\)$", self.ev_begin)
        on(V + r"data\(\)$", self.ev_begin)
        on(V + r"operator\[\]\(unsigned long\)( const)?$", self.ev_at)
        on(r"^__gnu_cxx::__normal_iterator<epoll_event\*.*>::operator\*\(\) const$", lambda ex, st, a, I: ex.load(st, a[0], _PtrTy()))
        on(r"^std::(__new_)?allocator<.*>::~?(__new_)?allocator\(\)$", nop)
        on(r"^std::__new_allocator<.*>::~?__new_allocator\(\)$", nop)
        test = self.fntest
        on(r"^bool std::operator== ?<.*std::function<.*nullptr", lambda ex, st, a, I: z3.Not(test(st, a[0])))
        on(r"^bool std::operator!= ?<.*std::function<.*nullptr", lambda ex, st, a, I: test(st, a[0]))
        on(r"^std::function<.*>::function<void \(&\)\(", self.from_fn)
        on(r"^std::function<.*>::operator=<void \(&\)\(", lambda ex, st, a, I: (self.from_fn(ex, st, a, I), a[0])[1])
        on(r"^std::enable_if<.*std::function<.*>::operator=<", lambda ex, st, a, I: (self.from_fn(ex, st, a, I), a[0])[1])
        on(r"^epoll_ctl$", self.epoll_ctl)
        on(r"^epoll_wait$", self.epoll_wait)
        on(r"^epoll_create1$", lambda ex, st, a, I: ex.fresh("epfd", 32))
        on(r"^close$", lambda ex, st, a, I: ex.fresh("r", 32))
        on(r"^timerfd_create$", self.tfd_create)
        on(r"^timerfd_settime$", self.tfd_settime)
        on(r"^cyclone::socket_api::read\(", self.sock_read)
        on(r"^cyclone::socket_api::close_socket\(", lambda ex, st, a, I: rec(st, "close", a[0]))
        on(r"^cyclone::socket_api::get_lasterror\(\)$", lambda ex, st, a, I: ex.fresh("errno", 32))
        on(r"^cyclone::Pipe::~?Pipe\(\)$", lambda ex, st, a, I: rec(st, "~pipe" if "~" in ex.m.dem[I.extra.val] else "pipe", a[0].r))
        on(r"^cyclone::Pipe::get_read_port\(\)$", lambda ex, st, a, I: self.port(st, a[0], I))
        on(r"^cyclone::Pipe::write\(", lambda ex, st, a, I: (rec(st, "touch"), bv(8))[1])
        if intercept_ops:
            on(r"^cyclone::Looper::register_event\(", self.h_register)
            on(r"^cyclone::Looper::delete_event\(", self.h_delete)
            on(r"^cyclone::Looper_epoll::_poll\(", self.h_poll)
        ex.access_hook = self.access

    def unsup(self, ex, st, a, I): raise Unsupported("channel table accessed through an iterator")

    def start(self, st, n=None):
        ex = self.ex
        r = ex.new_reg(st, "looper", "cells", L.sizeof("cyclone::Looper_epoll"))
        self.rid = r.id
        vt = ex.global_reg(st, "_ZTVN7cyclone12Looper_epollE")
        ex.store_cell(st, r.id, 0, 8, Ptr(vt, 16))
        n = ex.fresh("registrations") if n is None else n
        st.assume(z3.ULT(n, bv(1 << 30)))
        head, cnt = ex.fresh("free_head", 32), ex.fresh("loop_counts")
        self.epfd = ex.fresh("epoll_fd", 32)
        st.assume(z3.ULT(cnt, bv(1 << 63)))
        for f, val, sz in (("m_free_head", head, 4), ("m_loop_counts", cnt, 8), ("m_lock", Ptr(0, bv(0x4000)), 8), ("m_eoll_fd", self.epfd, 4), ("m_inner_pipe", Ptr(0, ex.fresh("inner_pipe")), 8),
                           ("m_inner_pipe_touched", ex.fresh("touched", 32), 4), ("m_quit_cmd", ex.fresh("quit", 32), 4)): ex.store_cell(st, r.id, LOOPF[f], sz, val)
        st.ghost.update(n=n, handed=(), locked=False, nev=ex.fresh("event_slots"), lists={}, kern={}, livech={}, calls=0, failed=F, mid=None, quit=F, iter=None, cur=None, gone=())
        st.assume(z3.UGE(st.ghost["nev"], 1), z3.ULT(st.ghost["nev"], bv(1 << 30)))
        st.ghost["tab"] = Table(ex, n)
        st.assume(self.head_ok(st, head))
        return r.id

    def cell(self, st, off, size, rid=None):
        h = self.ex.access_hook
        self.ex.access_hook = None
        try: return self.ex.load_cell(st, rid or self.rid, off, size, _IntTy(8 * size))
        finally: self.ex.access_hook = h

    def head(self, st): return self.cell(st, LOOPF["m_free_head"], 4)
    def counts(self, st): return self.cell(st, LOOPF["m_loop_counts"], 8)

    # ------------------------------------------------------------------ the invariant of the arbitrary table
    def head_ok(self, st, h):
        t = st.ghost["tab"]
        i = z3.ZeroExt(32, h)
        return z3.Or(h == bv(INV, 32), z3.And(z3.ULT(i, t.n), z3.Not(t.live(i))))

    def inst(self, st, i):
        t = st.ghost["tab"]
        nx = z3.ZeroExt(32, t.next(i))
        h = self.head(st) if st.ghost.get("head0") is None else st.ghost["head0"]
        st.ghost.setdefault("head0", h)
        a = [z3.ULE(t.event(i), 3), z3.Implies(z3.Not(t.live(i)), t.event(i) == 0), z3.ULE(t.born(i), self.counts(st)) if st.ghost["mid"] is None else T,
             z3.Implies(z3.And(z3.ULT(i, t.n), z3.Not(t.live(i))), z3.And(z3.Or(t.next(i) == bv(INV, 32), z3.And(z3.ULT(nx, t.n), z3.Not(t.live(nx)))), z3.Or(h == bv(INV, 32), t.next(i) != h)))]
        for j, _ in st.ghost["handed"]: a.append(z3.Implies(z3.And(z3.Not(t.live(i)), z3.Not(t.live(j)), t.next(i) == t.next(j), t.next(i) != bv(INV, 32)), i == j))
        m = st.ghost["mid"]
        if m is not None: a.append(z3.If(t.bornok(i), z3.ULE(t.born(i), m), z3.Implies(t.live(i), t.born(i) == self.counts(st))))
        return a

    def at(self, ex, st, a, I):
        i = z3.simplify(b64(a[1]))
        ex.oblige(st, "the registration slot is inside the table", z3.ULT(i, st.ghost["n"]), "memory", I.line)
        for j, r in st.ghost["handed"]:
            if j.eq(i): return Ptr(r)
        al = []
        for j, r in st.ghost["handed"]: al.append((i == j, lambda s, r=r: Ptr(r)))
        rest = z3.And(*[i != j for j, _ in st.ghost["handed"]]) if al else T

        def new(s): return Ptr(self.hand(s, i))
        if not al: return new(st)
        return osm.alts(ex, st, al + [(rest, new)])

    def hand(self, st, i):
        ex, t = self.ex, st.ghost["tab"]
        r = ex.new_reg(st, "channel", "cells", L.sizeof(CH))
        ap = i in () or None
        st.assume(*self.inst(st, i))
        ap = st.ghost.get("timerparam")
        tm = t.timer(i)
        h = ex.access_hook
        ex.access_hook = None
        act = t.event(i) != 0
        for f, val, sz in (("id", z3.Extract(31, 0, i), 4), ("fd", t.fd(i), 4), ("event", t.event(i), 4), ("param", ap if ap is not None else Ptr(0, t.param(i)), 8), ("active", bool_to_bv(act, 8), 1),
                           ("timer", bool_to_bv(tm, 8), 1), ("born", t.born(i), 8), ("next", t.next(i), 4)):
            if f in C: ex.store_cell(st, r.id, C[f], sz, val)
        ex.access_hook = h
        stdfn.put(st, Ptr(r.id, C["on_read"]), stdfn.Target(("read", i, r.id), t.hasr(i)))
        stdfn.put(st, Ptr(r.id, C["on_write"]), stdfn.Target(("write", i, r.id), t.hasw(i)))
        st.ghost["handed"] = st.ghost["handed"] + ((i, r.id),)
        st.ghost["kern"] = {**st.ghost["kern"], r.id: (z3.simplify(act), maskof(t.event(i), t.hasr(i), t.hasw(i)), z3.Extract(31, 0, i))}
        return r.id

    def chan(self, st, i):
        for j, r in st.ghost["handed"]:
            if j.eq(z3.simplify(i)): return r
        return None

    def cf(self, st, rid, f, size): return self.cell(st, C[f], size, rid)
    def has(self, st, rid, f):
        t = stdfn.get(st, Ptr(rid, C[f]))
        if isinstance(t, stdfn.Target): return t.present if t.present is not None else T
        return T
    def fntest(self, st, p):
        t = stdfn.get(st, p)
        if t is None:
            t = stdfn.Target(("unknown",), self.ex.fresh("present", 1))
            stdfn.put(st, p, t)
        return t.present if isinstance(t, stdfn.Target) and t.present is not None else T

    def from_fn(self, ex, st, a, I):
        stdfn.put(st, a[0], stdfn.Target(("fn", a[1].name if isinstance(a[1], FnPtr) else a[1]), T))

    def check_chan(self, st, rid, what):
        """the channel invariant of a channel that carries a registration"""
        ex = self.ex
        ev, act = self.cf(st, rid, "event", 4), self.cf(st, rid, "active", 1) != 0
        reg, mask, data = st.ghost["kern"][rid]
        hr, hw = self.has(st, rid, "on_read"), self.has(st, rid, "on_write")
        ex.oblige(st, f"{what}: a channel is active exactly while it has an interest and the kernel watches it", z3.And(act == (ev != 0), reg == act, z3.ULE(ev, 3)), "invariant")
        ex.oblige(st, f"{what}: the kernel's interest set is exactly the enabled interests", z3.Implies(reg, z3.And(mask == maskof(ev, hr, hw), data == self.cf(st, rid, "id", 4))), "invariant")

    def snapshot(self, st, rid): return {f: self.cf(st, rid, f, n) for f, n in (("id", 4), ("fd", 4), ("event", 4), ("active", 1), ("timer", 1), ("next", 4))}

    def frame(self, st, but, what):
        """other registrations unaffected"""
        ex, t = self.ex, st.ghost["tab"]
        for i, r in st.ghost["handed"]:
            if r == but or r in st.ghost["gone"]: continue
            g = [self.cf(st, r, "fd", 4) == t.fd(i), self.cf(st, r, "event", 4) == t.event(i), self.cf(st, r, "id", 4) == z3.Extract(31, 0, i), self.cf(st, r, "next", 4) == t.next(i),
                 st.ghost["kern"][r][0] == (t.event(i) != 0), st.ghost["kern"][r][1] == maskof(t.event(i), t.hasr(i), t.hasw(i))]
            for f in ("on_read", "on_write"):
                x = stdfn.get(st, Ptr(r, C[f]))
                g.append(T if isinstance(x, stdfn.Target) and isinstance(x.name, tuple) and x.name[-1] == r else F)
            ex.oblige(st, f"{what}: other registrations are unaffected", z3.And(*g), "frame")

    # ------------------------------------------------------------------ growth
    def reserve(self, ex, st, a, I):
        ex.oblige(st, "the table grows under the lock", T if st.ghost["locked"] else F, "race", I.line)
        self.kill(st)

    def kill(self, st):
        for _, r in st.ghost["handed"]: st.wreg(r).alive = False
        st.ghost["handed"] = ()

    def push_channel(self, ex, st, a, I):
        ex.oblige(st, "the table grows under the lock", T if st.ghost["locked"] else F, "race", I.line)
        q = ex.resolve(st, a[1])
        n = st.ghost["n"]
        g = {f: self.cell(st, q.off + C[f], s, q.r) for f, s in (("id", 4), ("event", 4), ("active", 1), ("timer", 1), ("next", 4))}
        ex.oblige(st, "a new slot is empty and has its own number as id", z3.And(z3.ZeroExt(32, g["id"]) == n, g["event"] == 0, g["active"] == 0), "postcondition", I.line)
        for f in ("on_read", "on_write"): ex.oblige(st, "a new slot has no callback", z3.Not(self.fntest(st, Ptr(q.r, q.off + C[f]))), "postcondition", I.line)
        st.ghost["pushed"] = st.ghost.get("pushed", ()) + ((n, g["next"]),)
        st.ghost["n"] = z3.simplify(n + 1)

    # ------------------------------------------------------------------ lists of ready ids
    def lkey(self, ex, st, p):
        q = ex.resolve(st, p)
        return (q.r, q.off)

    def lst(self, st, p):
        k = self.lkey(self.ex, st, p)
        if k not in st.ghost["lists"]: raise Unsupported("unknown id list")
        return st.ghost["lists"][k]

    def l_new(self, ex, st, a, I): st.ghost["lists"] = {**st.ghost["lists"], self.lkey(ex, st, a[0]): {"size": bv(0), "name": "list", "fn": None}}

    def l_at(self, ex, st, a, I):
        l = self.lst(st, a[0])
        i = z3.simplify(b64(a[1]))
        ex.oblige(st, "the ready list is read inside its bounds", z3.ULT(i, l["size"]), "memory", I.line)
        if l["fn"] is None: raise Unsupported("ready list of unknown content")
        r = ex.new_reg(st, "ready_id", "cells", 4)
        v = l["fn"](i)
        st.assume(z3.ULT(z3.ZeroExt(32, v), st.ghost["n"]))
        ex.store_cell(st, r.id, 0, 4, v)
        st.ghost["cur"] = (l["name"], i, v)
        return Ptr(r.id)

    # iterators: a pointer into an object that stands for the list (offset 4 * position)
    def lreg(self, st, p):
        self.lst(st, p)
        k = self.lkey(self.ex, st, p)
        m = st.ghost.get("lregs", {})
        if k not in m:
            st.ghost["lregs"] = m = {**m, k: self.ex.new_reg(st, "positions", "cells", 0).id}
        return m[k]

    def of_it(self, st, it):
        k = next((k for k, r in st.ghost.get("lregs", {}).items() if isinstance(it, Ptr) and r == it.r), None)
        if k is None: raise Unsupported("iterator of an unknown list")
        return Ptr(*k), b64(it.off)

    def it_at(self, ex, st, a, I):
        l, o = self.of_it(st, ex.load(st, a[0], _PtrTy()))
        return self.l_at(ex, st, [l, z3.simplify(z3.LShR(o, 2))], I)

    def it_next(self, ex, st, a, I):
        old = ex.load(st, a[0], _PtrTy())
        self.of_it(st, old)
        ex.store(st, a[0], Ptr(old.r, z3.simplify(b64(old.off) + 4)), 8, I.line)
        return old if len(a) > 1 else a[0]

    def it_eq(self, st, a, neg):
        (l, o), (m, p) = (self.of_it(st, self.ex.load(st, x, _PtrTy())) for x in a[:2])
        if (l.r, l.off) != (m.r, m.off): raise Unsupported("iterators of two lists are compared")
        return z3.simplify(o != p if neg else o == p)

    def l_push(self, ex, st, a, I):
        l = self.lst(st, a[0])
        rec(st, "push", l["name"], ex.load(st, a[1], _IntTy(32)))

    # ------------------------------------------------------------------ epoll
    def epoll_ctl(self, ex, st, a, I):
        ex.oblige(st, "the loop's own epoll descriptor is used, under the lock", z3.And(a[0] == self.epfd, z3.BoolVal(st.ghost["locked"])), "callee precondition", I.line)
        op, fd = z3.simplify(a[1]), a[2]
        if not is_c(op):
            c = ex.concretize(st, op)
            if c is None:
                return self.ctl_fork(ex, st, a, I)
            op = bv(c, 32)
        return self.ctl(ex, st, cval(op), a, I)

    def ctl_fork(self, ex, st, a, I):
        out = []
        for k in (1, 2, 3):
            if not ex.feasible(st, a[1] == k): continue
            s = st.clone()
            s.assume(a[1] == k)
            x = self.ctl(ex, s, k, a, I)
            out += x.alts if isinstance(x, Alts) else [(s, x)]
        if ex.feasible(st, z3.And(a[1] != 1, a[1] != 2, a[1] != 3)): ex.oblige(st, "the epoll operation is ADD, MOD or DEL", F, "callee precondition", I.line)
        return Alts(out)

    def ctl(self, ex, st, op, a, I):
        fd = z3.simplify(a[2])
        c = [r for _, r in st.ghost["handed"] if z3.simplify(self.cf(st, r, "fd", 4)).eq(fd) and r not in st.ghost["gone"]]
        ex.oblige(st, "the descriptor given to epoll is the channel's", T if len(c) == 1 else F, "callee precondition", I.line)
        if len(c) != 1: raise PathEnd()
        r = c[0]
        reg, mask, data = st.ghost["kern"][r]
        ex.oblige(st, {1: "a descriptor is added only if the kernel does not watch it yet", 3: "a descriptor is modified only if the kernel watches it", 2: "a descriptor is removed only if the kernel watches it"}[op],
                  z3.Not(reg) if op == 1 else reg, "callee precondition", I.line)
        q = ex.resolve(st, a[3])
        ev, d = (ex.load(st, Ptr(q.r, add64(q.off, k)), _IntTy(32)) for k in (0, 4)) if op != 2 else (bv(0, 32), bv(0, 32))

        def done(s):
            s.ghost["kern"] = {**s.ghost["kern"], r: (F, mask, data) if op == 2 else (T, ev, d)}
            return bv(0, 32)

        def fail(s):
            s.ghost["failed"] = T
            return bv(-1, 32)
        if op != 1: return done(st)
        ok = ex.fresh("added", 1)
        return osm.alts(ex, st, [(ok, done), (z3.Not(ok), fail)])

    def epoll_wait(self, ex, st, a, I):
        p = a[1]
        ex.oblige(st, "epoll_wait fills the loop's event array, within its size", z3.And(a[0] == self.epfd, z3.BoolVal(isinstance(p, Ptr) and p.r == st.ghost.get("evreg")), z3.SignExt(32, a[2]) == st.ghost["nev"], a[2] > 0), "callee precondition", I.line)
        ex.oblige(st, "the loop waits only when asked to", z3.If(self.block, a[3] == bv(-1, 32), a[3] == 0) if self.block is not None else T, "postcondition", I.line)
        r = ex.fresh("events", 32)
        st.assume(r >= -1, r <= a[2])
        st.ghost["got"] = r
        return r

    def ev_resize(self, ex, st, a, I):
        ex.oblige(st, "the event array never shrinks", z3.UGE(a[1], st.ghost["nev"]), "postcondition", I.line)
        st.ghost["nev"] = a[1]

    def ev_begin(self, ex, st, a, I):
        if st.ghost.get("evreg") is None: st.ghost["evreg"] = ex.new_reg(st, "events", "cells", 12).id
        return Ptr(st.ghost["evreg"])

    def ev_at(self, ex, st, a, I):
        i = z3.simplify(b64(a[1]))
        ex.oblige(st, "only events the kernel filled in are examined", z3.And(z3.ULT(i, z3.SignExt(32, st.ghost["got"])), st.ghost["got"] > 0), "memory", I.line)
        r = ex.new_reg(st, "event", "cells", 12)
        e, d = ex.fresh("revents", 32), ex.fresh("slot", 32)
        t = st.ghost["tab"]
        st.assume(z3.ULT(z3.ZeroExt(32, d), st.ghost["n"]), t.live(z3.ZeroExt(32, d)), t.event(z3.ZeroExt(32, d)) != 0)
        ex.store_cell(st, r.id, 0, 4, e)
        ex.store_cell(st, r.id, 4, 4, d)
        ex.store_cell(st, r.id, 8, 4, bv(0, 32))
        st.ghost["ev"] = (e, d)
        st.ghost["evi"] = i
        return Ptr(r.id)

    # ------------------------------------------------------------------ timers
    def tfd_create(self, ex, st, a, I):
        ex.oblige(st, "a timer is monotonic and non-blocking", z3.And(a[0] == 1, (a[1] & 0o4000) != 0), "postcondition", I.line)
        r = ex.fresh("timerfd", 32)
        st.assume(r >= -1)
        rec(st, "tfd", r)
        return r

    def tfd_settime(self, ex, st, a, I):
        q = ex.resolve(st, a[2])
        rec(st, "settime", a[0], a[1], *[ex.load(st, Ptr(q.r, add64(q.off, k)), _IntTy(64)) for k in (0, 8, 16, 24)])
        return bv(0, 32)

    def sock_read(self, ex, st, a, I):
        q = ex.resolve(st, a[1])
        if is_c(a[2]):
            ex.check_access(st, q, cval(a[2]), True, I.line, "read buffer")
        rec(st, "read", a[0], a[2])
        return ex.fresh("len")

    def port(self, st, p, I):
        rec(st, "port", p.r)
        return st.ghost.setdefault("port", self.ex.fresh("port", 32))

    # ------------------------------------------------------------------ locks and races
    def lock(self, ex, st, a, I):
        ex.oblige(st, "the loop's lock is taken, not held already", T if not st.ghost["locked"] else F, "callee precondition", I.line)
        if st.ghost["locked"]: raise PathEnd()
        st.ghost["locked"] = True

    def unlock(self, ex, st, a, I):
        ex.oblige(st, "the lock released is held", T if st.ghost["locked"] else F, "callee precondition", I.line)
        st.ghost["locked"] = False

    def access(self, ex, st, p, ty, w, line):
        if w is not None and any(r == p.r for _, r in st.ghost["handed"]) and not st.ghost.get("setup"):
            ex.oblige(st, "registrations change only under the lock", T if st.ghost["locked"] else F, "race", line)
        if p.r == getattr(self, "rid", None) and w is None and p.off == LOOPF["m_quit_cmd"]:
            q = ex.fresh("quit", 32)
            old = self.cell(st, LOOPF["m_quit_cmd"], 4)
            st.assume(z3.Implies(old != 0, q == old))
            ex.access_hook = None
            try: ex.store_cell(st, self.rid, LOOPF["m_quit_cmd"], 4, q)
            finally: ex.access_hook = self.access
            st.ghost["quit"] = q != 0
        return None

    # ------------------------------------------------------------------ dispatch
    def h_register(self, ex, st, a, I):
        i = ex.fresh("inner_id", 32)
        st.assume(z3.ULT(z3.ZeroExt(32, i), bv(1 << 30)))
        rec(st, "register", a[1], a[2], a[3], stdfn.get(st, a[4]), i)
        self.kill(st)
        n = ex.fresh("registrations")
        st.assume(z3.ULT(n, bv(1 << 30)), z3.UGE(n, 1))
        st.ghost["n"] = n
        st.ghost["tab"] = Table(ex, n)
        return i

    def h_delete(self, ex, st, a, I): rec(st, "delete", a[1])

    def exhausted(self, st, what, line=None):
        it = st.ghost["iter"]
        if it is None: return
        name, i, size = it
        self.ex.oblige(st, f"{what}: every ready event of the round was examined, unless the loop is quitting", z3.Or(st.ghost["quit"], z3.UGE(i, size)), "postcondition", line)
        st.ghost["iter"] = None

    def h_poll(self, ex, st, a, I):
        self.exhausted(st, "before polling again", I.line)
        ex.oblige(st, "polling happens without the lock", T if not st.ghost["locked"] else F, "callee precondition", I.line)
        rec(st, "poll", a[3])
        st.ghost["mid"] = self.counts(st)
        ls = dict(st.ghost["lists"])
        for p, nm in ((a[1], "read"), (a[2], "write")):
            k = self.lkey(ex, st, p)
            if k not in ls: raise Unsupported("ready list")
            ex.oblige(st, "the ready lists are empty before polling", ls[k]["size"] == 0, "callee precondition", I.line)
            n = ex.fresh("ready")
            st.assume(z3.ULT(n, bv(1 << 31)))
            ls[k] = {"size": n, "name": nm, "fn": z3.Function(f"ready.{nm}.{n}", B64, B32)}
        st.ghost["lists"] = ls
        st.ghost["rounds"] = st.ghost.get("rounds", 0) + 1
        self.kill(st)
        n = ex.fresh("registrations")
        st.assume(z3.ULT(n, bv(1 << 30)), z3.UGE(n, st.ghost["n"]))
        st.ghost["n"] = n
        t = st.ghost["tab"] = Table(ex, n)
        st.ghost["polled"] = True

    def havoc(self, st):
        """whatever callbacks may have done to the registrations in this round"""
        ex = self.ex
        self.kill(st)
        n = ex.fresh("registrations")
        st.assume(z3.ULT(n, bv(1 << 30)), z3.UGE(n, st.ghost["n"]))
        st.ghost["n"] = n
        st.ghost["tab"] = Table(ex, n)

    def on_call(self, ex, st, t, p, args, I):
        if not self.dispatch: raise Unsupported("a callback is invoked here")
        cur = st.ghost["cur"]
        g = lambda nm, goal, kind="postcondition": ex.oblige(st, nm, goal if z3.is_expr(goal) else (T if goal else F), kind, I.line)
        ok = isinstance(t, stdfn.Target) and isinstance(t.name, tuple) and t.name[0] in ("read", "write") and cur is not None
        g("only a callback of a registration reported ready is invoked", ok)
        if not ok: raise PathEnd()
        kind, slot, rid = t.name
        tb = st.ghost["tab"]
        g("the callable that runs is not stored in the table (a callback may grow the table, or replace its own registration)", p.r != rid, "memory")
        g("callbacks run without the lock", not st.ghost["locked"], "callee precondition")
        g("the callback invoked is the one registered for the ready slot, for the kind of readiness reported", z3.And(slot == z3.ZeroExt(32, cur[2]), z3.BoolVal(cur[0] == kind)))
        g("the callback gets its registration's id, descriptor, the event and its parameter",
          z3.And(args[0] == cur[2], args[1] == self.cf(st, rid, "fd", 4), args[2] == (1 if kind == "read" else 2), b64(args[3].off) == tb.param(slot) if isinstance(args[3], Ptr) and args[3].r == 0 else F))
        g("an event is delivered only for an interest that is enabled at that moment (never to a deleted registration)", self.cf(st, rid, "event", 4) & (1 if kind == "read" else 2) != 0)
        g("an event is delivered only to the registration that was reported ready, not to a later one in the same slot", tb.bornok(slot))
        g("an event is delivered once", st.ghost["calls"] == 0)
        st.ghost["calls"] += 1
        self.havoc(st)
        return None


def lemma_next(ex, lp, st, head, k):
    """used after a registration took a slot: nothing"""


# ---------------------------------------------------------------------------- loops
class Grow:
    """the loop of _get_free_slot that appends empty slots; the retry loop around it is unrolled"""

    def __init__(self, lp): self.lp = lp

    def enter(self, ex, st, hdr, phis):
        lp = self.lp
        ints = [I for I in phis if z3.is_bv(phis[I]) and phis[I].size() in (32, 64)]
        if len(ints) != 1: raise Unsupported("growth loop")
        I = ints[0]
        line = hdr.insts[-1].line
        old = st.ghost["n"]
        ex.oblige(st, "growth starts at the end of the table", (b64(phis[I]) if phis[I].size() == 64 else z3.ZeroExt(32, phis[I])) == old, "loop invariant", line)
        ex.oblige(st, "the table grows only when no slot is free", lp.head(st) == bv(INV, 32), "loop invariant", line)
        i = ex.fresh("grow", phis[I].size())
        i64 = i if i.size() == 64 else z3.ZeroExt(32, i)
        st.assume(z3.UGE(i64, old), z3.ULT(i64, bv(1 << 31)))
        phis[I] = i
        st.ghost["n"] = i64
        h = z3.If(i64 == old, bv(INV, 32), z3.Extract(31, 0, i64 - 1))
        hk = ex.access_hook
        ex.access_hook = None
        ex.store_cell(st, lp.rid, LOOPF["m_free_head"], 4, h)
        ex.access_hook = hk
        st.ghost["pushed"] = ()
        st.ghost["grown"] = (old, i64)
        # the table now ends in a chain of fresh slots old..i-1
        t0 = st.ghost["tab"]
        t = Table(ex, i64)
        for f in ("fd", "event", "next", "param", "born", "bornok", "timer", "hasr", "hasw", "live"):
            o = getattr(t0, f)
            nw = getattr(t, f)
            val = {"event": bv(0, 32), "live": F, "hasr": F, "hasw": F, "timer": F}.get(f)
            if f == "next": g = lambda j, o=o: z3.If(z3.ULT(j, old), o(j), z3.If(j == old, bv(INV, 32), z3.Extract(31, 0, j - 1)))
            elif val is not None: g = lambda j, o=o, val=val: z3.If(z3.ULT(j, old), o(j), val)
            else: g = lambda j, o=o, nw=nw: z3.If(z3.ULT(j, old), o(j), nw(j))
            setattr(t, f, g)
        st.ghost["tab"] = t
        st.ghost["head0"] = None
        st.ghost.pop("head0")
        return I, i64, old

    def back(self, ex, st, hdr, phis, saved):
        lp = self.lp
        I, i, old = saved
        line = hdr.insts[-1].line
        v = phis[I]
        ex.oblige(st, "one slot is appended per step", z3.And(z3.BoolVal(len(st.ghost["pushed"]) == 1), (v if v.size() == 64 else z3.ZeroExt(32, v)) == i + 1, st.ghost["n"] == i + 1), "loop invariant", line)
        if len(st.ghost["pushed"]) == 1:
            ex.oblige(st, "a new slot is linked in front of the free list", z3.And(st.ghost["pushed"][0][1] == z3.If(i == old, bv(INV, 32), z3.Extract(31, 0, i - 1)), lp.head(st) == z3.Extract(31, 0, i)), "loop invariant", line)


def grow_sel(fn, header): return "_get_free_slot" in fn.dem and any(True for B in fn.loops[header] for I in [] ) or ("_get_free_slot" in fn.dem and is_inner(fn, header))


def is_inner(fn, header):
    return not any(h is not header and h in fn.loops[header] for h in fn.loops)


class Round:
    """the loops over the ready lists (one arbitrary element) and the endless loop around them"""

    def __init__(self, lp): self.lp = lp

    def enter(self, ex, st, hdr, phis):
        lp, fn = self.lp, st.frames[-1].fn
        line = hdr.insts[-1].line
        outer = not is_inner(fn, hdr)
        if outer or not st.ghost.get("polled"):
            if [I for I in phis if z3.is_bv(phis[I])]: raise Unsupported("loop-carried value in the endless loop")
            c = ex.fresh("loop_counts")
            st.assume(z3.ULT(c, bv(1 << 62)))
            ex.access_hook, h = None, ex.access_hook
            ex.store_cell(st, lp.rid, LOOPF["m_loop_counts"], 8, c)
            ex.access_hook = h
            st.ghost.update(mid=None, iter=None, calls=0, cur=None)
            lp.havoc(st)
            st.ghost["lists"] = {k: {**l, "size": ex.fresh("left"), "fn": None} for k, l in st.ghost["lists"].items()}
            return None
        ints = [I for I in phis if z3.is_bv(phis[I]) and phis[I].size() in (32, 64)]
        lp.kept = {J: v for J, v in phis.items() if J not in ints}
        if not ints: return self.by_iterator(ex, st, phis, line)
        if len(ints) != 1: raise Unsupported("dispatch loop")
        I = ints[0]
        w = lambda v: v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)
        ex.oblige(st, "dispatch starts with the first ready event", w(phis[I]) == 0, "loop invariant", line)
        lp.exhausted(st, "before the next list", line)
        ex.oblige(st, "the round was counted before its events are dispatched", z3.UGT(lp.counts(st), st.ghost["mid"]), "protocol", line)
        i = ex.fresh("event_index", phis[I].size())
        if i.size() == 32: st.assume(i >= 0)
        phis[I] = i
        lp.havoc(st)
        st.ghost.update(calls=0, cur=None, quit=F)
        st.ghost["iter"] = ("?", w(i), None)
        # which list: decided by the first size() read at the loop guard
        cands = [l for l in st.ghost["lists"].values() if l["fn"] is not None]
        done = st.ghost.get("donelists", ())
        nxt = [l for l in cands if l["name"] not in done]
        if not nxt: raise Unsupported("a third dispatch loop")
        kept = lp.kept
        l = next((x for x in nxt if x["name"] == "read"), nxt[0])
        st.ghost["donelists"] = done + (l["name"],)
        st.ghost["iter"] = (l["name"], w(i), l["size"])
        return (lambda t, ph: ph[I] if ph[I].size() == 64 else z3.ZeroExt(32, ph[I])), w(i), l, kept

    def by_iterator(self, ex, st, phis, line):
        lp, done = self.lp, st.ghost.get("donelists", ())
        regs = {r: st.ghost["lists"][k] for k, r in st.ghost.get("lregs", {}).items()}
        its = [(r, o, v) for r in st.frames[-1].allocas if r in st.mem for o, (v, n) in st.mem[r].cells.items()
               if isinstance(v, Ptr) and v.r in regs and regs[v.r]["name"] not in done and is_zero(b64(v.off))]
        if len(its) != 1: raise Unsupported("dispatch loop")
        r, o, v = its[0]
        l = regs[v.r]
        lp.exhausted(st, "before the next list", line)
        ex.oblige(st, "the round was counted before its events are dispatched", z3.UGT(lp.counts(st), st.ghost["mid"]), "protocol", line)
        i = ex.fresh("event_index")
        st.assume(z3.ULE(i, l["size"]))        # an iterator moves from begin() to end(), where the comparison stops it (checked: one step per round)
        kept = dict(phis)
        ex.store_cell(st, r, o, 8, Ptr(v.r, z3.simplify(i * 4)))
        lp.havoc(st)
        st.ghost.update(calls=0, cur=None, quit=F)
        st.ghost["donelists"] = done + (l["name"],)
        st.ghost["iter"] = (l["name"], i, l["size"])

        def now(t, ph):
            x = t.mem[r].cells[o][0]
            if not (isinstance(x, Ptr) and x.r == v.r): raise Unsupported("dispatch loop")
            return z3.LShR(b64(x.off), 2)
        return now, i, l, kept

    def back(self, ex, st, hdr, phis, saved):
        lp = self.lp
        line = hdr.insts[-1].line
        if saved is None:
            lp.exhausted(st, "before the next round", line)
            ex.oblige(st, "a round polls once and dispatches both lists", T if set(st.ghost.get("donelists", ())) == {"read", "write"} else F, "postcondition", line)
            return
        now, i, l, kept = saved
        for J, v in kept.items():
            x = phis[J]
            if not (x.r == v.r and ex.valid(st, b64(x.off) == b64(v.off)) if isinstance(v, Ptr) and isinstance(x, Ptr) else z3.is_expr(v) and z3.is_expr(x) and ex.valid(st, x == v)): raise Unsupported("a local variable changes in the dispatch loop")
        ex.oblige(st, "dispatch goes on with the next ready event", now(st, phis) == i + 1, "loop invariant", line)
        cur = st.ghost["cur"]
        ex.oblige(st, "each step examines its own entry of the right list", z3.And(cur[1] == i, z3.BoolVal(cur[0] == l["name"])) if cur else F, "postcondition", line)
        if cur and st.ghost["calls"] == 0:
            s = z3.ZeroExt(32, cur[2])
            rid = lp.chan(st, s)
            t = st.ghost["tab"]
            bit = 1 if l["name"] == "read" else 2
            ex.oblige(st, "a ready event of an enabled interest with a callback is delivered",
                      z3.Not(z3.And(t.bornok(s), t.live(s), t.event(s) & bit != 0, (t.hasr if bit == 1 else t.hasw)(s))), "postcondition", line)


class Events:
    """the loop of _poll over the kernel's events (one arbitrary event) and the retry loop"""

    def __init__(self, lp): self.lp = lp

    def enter(self, ex, st, hdr, phis):
        line = hdr.insts[-1].line
        ints = [I for I in phis if z3.is_bv(phis[I]) and phis[I].size() in (32, 64)]
        if st.ghost.get("got") is None or len(ints) != 1 or not is_zero(phis[ints[0]]):
            for I in ints: phis[I] = ex.fresh("retry", phis[I].size())
            return None
        I = ints[0]
        i = ex.fresh("i", phis[I].size())
        st.assume(i >= 0)
        phis[I] = i
        st.trace = [t for t in st.trace if t[0] != "push"]
        st.ghost["ev"] = None
        w = i if i.size() == 64 else z3.SignExt(32, i)
        st.ghost["iter"] = ("events", w, z3.SignExt(32, st.ghost["got"]))
        return I, w

    def back(self, ex, st, hdr, phis, saved):
        if saved is None: return
        lp = self.lp
        line = hdr.insts[-1].line
        I, i = saved
        v = phis[I]
        ex.oblige(st, "the next event is examined next", (v if v.size() == 64 else z3.SignExt(32, v)) == i + 1, "loop invariant", line)
        if st.ghost["ev"] is None:
            ex.oblige(st, "each event is examined", F, "postcondition", line)
            return
        ex.oblige(st, "each step examines its own event", st.ghost["evi"] == i, "postcondition", line)
        e, d = st.ghost["ev"]
        t = st.ghost["tab"]
        s = z3.ZeroExt(32, d)
        err = z3.And(e & (EPERR | EPHUP) != 0, e & (EPIN | EPOUT) == 0)
        for nm, bit, has in (("read", EPIN, t.hasr(s)), ("write", EPOUT, t.hasw(s))):
            want = z3.And(z3.Or(e & bit != 0, err), has)
            p = [x for x in st.trace if x[0] == "push" and x[1] == nm]
            ex.oblige(st, f"a registration is put on the {nm} list exactly when it was reported ready (or in error) for it and has that callback",
                      z3.And(want, p[0][2] == d) if len(p) == 1 else (z3.Not(want) if not p else F), "postcondition", line)


def is_zero(t): return z3.is_bv_value(z3.simplify(t)) and z3.simplify(t).as_long() == 0


# ---------------------------------------------------------------------------- tasks
def live_id(lp, st, ex):
    i = ex.fresh("id", 32)
    t = st.ghost["tab"]
    s = z3.ZeroExt(32, i)
    st.assume(z3.Or(i == bv(INV, 32), z3.And(z3.ULT(s, t.n), t.live(s))))
    return i, s


OPS = {"enable_read": ("add", 1), "enable_write": ("add", 2), "disable_read": ("del", 1), "disable_write": ("del", 2), "disable_all": ("del", 3)}


def t_op(name):
    def f(v):
        lp = Lp(v, name)
        ex, st = lp.ex, State()
        rid = lp.start(st)
        i, s = live_id(lp, st, ex)
        t = st.ghost["tab"]
        v.cover(ex, st)
        how, bit = OPS[name]

        def ret(x, _):
            ex.oblige(x, f"{name}: the lock is released", T if not x.ghost["locked"] else F, "resource")
            r = lp.chan(x, s)
            lp.frame(x, r, name)
            if r is None:
                ex.oblige(x, f"{name}: only an invalid id is ignored", i == bv(INV, 32), "postcondition")
                return
            lp.check_chan(x, r, name)
            e0, e1 = t.event(s), lp.cf(x, r, "event", 4)
            hr, hw = lp.has(x, r, "on_read"), lp.has(x, r, "on_write")
            cb = z3.If(hr, bv(1, 32), bv(0, 32)) | z3.If(hw, bv(2, 32), bv(0, 32))
            if how == "add": g = z3.If(x.ghost["failed"], e1 == e0, e1 == e0 | bit)
            else: g = z3.And(e1 & bit == 0, z3.Implies(z3.Or(e0 & bit != 0), e1 & cb == e0 & ~bv(bit, 32) & cb), z3.Implies(e0 & bit == 0, e1 == e0))
            ex.oblige(x, f"{name}: exactly the named interest changes", g, "postcondition")
            ex.oblige(x, f"{name}: descriptor, parameter, id and callbacks stay",
                      z3.And(lp.cf(x, r, "fd", 4) == t.fd(s), lp.cf(x, r, "id", 4) == i, *[T if isinstance(stdfn.get(x, Ptr(r, C[c])), stdfn.Target) and stdfn.get(x, Ptr(r, C[c])).name[-1] == r else F for c in ("on_read", "on_write")]), "frame")
        ex.run(st, member("Looper", name), [Ptr(rid), i], ret)
    return f


def t_is(name, bit):
    def f(v):
        lp = Lp(v, name)
        ex, st = lp.ex, State()
        rid = lp.start(st)
        i, s = live_id(lp, st, ex)
        t = st.ghost["tab"]

        def ret(x, r):
            ex.oblige(x, f"{name}: the answer is the enabled interest (no for an invalid id), the lock is released", z3.And(to_bool(r) == z3.And(i != bv(INV, 32), t.event(s) & bit != 0), z3.BoolVal(not x.ghost["locked"])), "postcondition")
            lp.frame(x, None, name)
        ex.run(st, member("Looper", name), [Ptr(rid), i], ret)
    return f


def free_list_after_pop(lp, ex, x, r, s, what):
    """slot s was taken from the head of the free list"""
    t = x.ghost["tab"]
    h = lp.head(x)
    h64 = z3.ZeroExt(32, h)
    ex.oblige(x, f"{what}: the free list goes on with another free slot, or is empty", z3.Or(h == bv(INV, 32), z3.And(z3.ULT(h64, x.ghost["n"]), z3.Not(t.live(h64)), h64 != s)), "invariant")
    k = ex.fresh("k")
    x.assume(z3.ULT(k, t.n), k != s, z3.Not(t.live(k)), *lp.inst(x, k))
    ex.oblige(x, f"{what}: no other free slot leads to the slot taken or to the new head", z3.And(t.next(k) != z3.Extract(31, 0, s), z3.Or(h == bv(INV, 32), t.next(k) != h)), "invariant")


def t_register(v):
    lp = Lp(v, "register_event")
    ex, st = lp.ex, State()
    rid = lp.start(st)
    ex.loop_specs.append((re.compile(".*_get_free_slot.*"), lambda fn, h: is_inner(fn, h), Grow(lp)))
    fd, ty, prm = ex.fresh("fd", 32), ex.fresh("type", 32), Ptr(0, ex.fresh("param"))
    cbs = []
    for nm in ("new_read", "new_write"):
        r = ex.new_reg(st, nm, "cells", 32)
        stdfn.put(st, Ptr(r.id), stdfn.Target((nm,), ex.fresh("has_" + nm, 1)))
        cbs.append(Ptr(r.id))
    st.assume(z3.ULE(ty, 3))
    v.cover(ex, st)

    def ret(x, i):
        t = x.ghost["tab"]
        s = z3.simplify(z3.ZeroExt(32, i))
        r = lp.chan(x, s)
        ex.oblige(x, "register_event: the lock is released", T if not x.ghost["locked"] else F, "resource")
        ex.oblige(x, "register_event: the id is a slot of the table that carried no live registration", z3.And(z3.ULT(s, x.ghost["n"]), z3.Not(t.live(s))), "postcondition")
        if r is None:
            ex.oblige(x, "register_event: the slot of the returned id is filled in", F, "postcondition")
            return
        lp.check_chan(x, r, "register_event")
        c = [stdfn.get(x, Ptr(r, C[f])) for f in ("on_read", "on_write")]
        ex.oblige(x, "register_event: id, descriptor, parameter and callbacks are the ones given",
                  z3.And(lp.cf(x, r, "id", 4) == i, lp.cf(x, r, "fd", 4) == fd, b64(ex.load_cell(x, r, C["param"], 8, _PtrTy()).off) == prm.off, lp.cf(x, r, "timer", 1) == 0,
                         T if isinstance(c[0], stdfn.Target) and c[0].name == ("new_read",) and isinstance(c[1], stdfn.Target) and c[1].name == ("new_write",) else F), "postcondition")
        e = lp.cf(x, r, "event", 4)
        ex.oblige(x, "register_event: exactly the given interests are enabled (unless the kernel refuses)", z3.Or(e == ty, z3.And(x.ghost["failed"], e & ~ty == 0)), "postcondition")
        if "born" in C: ex.oblige(x, "register_event: the registration carries the round it was made in", lp.cf(x, r, "born", 8) == lp.counts(x), "protocol")
        free_list_after_pop(lp, ex, x, r, s, "register_event")
        lp.frame(x, r, "register_event")
    ex.run(st, member("Looper", "register_event"), [Ptr(rid), fd, ty, prm] + cbs, ret)


def t_timer(v):
    lp = Lp(v, "register_timer_event")
    ex, st = lp.ex, State()
    rid = lp.start(st)
    ex.loop_specs.append((re.compile(".*_get_free_slot.*"), lambda fn, h: is_inner(fn, h), Grow(lp)))
    ms, prm = ex.fresh("ms", 32), Ptr(0, ex.fresh("param"))
    r0 = ex.new_reg(st, "on_timer", "cells", 32)
    stdfn.put(st, Ptr(r0.id), stdfn.Target(("on_timer",), ex.fresh("has", 1)))
    TS = "cyclone::Looper::timer_s"
    v.cover(ex, st)

    def ret(x, i):
        t = x.ghost["tab"]
        ex.oblige(x, "register_timer_event: the lock is released", T if not x.ghost["locked"] else F, "resource")
        tf = [q for q in x.trace if q[0] == "tfd"]
        ex.oblige(x, "register_timer_event: one timer is created", T if len(tf) == 1 else F, "postcondition")
        if len(tf) != 1: return
        n = tf[0][1]
        if not ex.feasible(x, i != bv(INV, 32)):
            ex.oblige(x, "register_timer_event: an invalid id is returned only if the timer could not be created", n < 0, "postcondition")
            ex.oblige(x, "register_timer_event: nothing is leaked on failure", T if not x.ghost.get("heap") else F, "resource")
            h = lp.head(x)
            r = lp.chan(x, z3.ZeroExt(32, h))
            ex.oblige(x, "register_timer_event: on failure the slot goes back to the free list", T if r is not None else F, "resource")
            return
        s = z3.simplify(z3.ZeroExt(32, i))
        r = lp.chan(x, s)
        ex.oblige(x, "register_timer_event: the id is a slot of the table that carried no live registration", z3.And(z3.ULT(s, x.ghost["n"]), z3.Not(t.live(s)), z3.BoolVal(r is not None)), "postcondition")
        if r is None: return
        lp.check_chan(x, r, "register_timer_event")
        tp = ex.load_cell(x, r, C["param"], 8, _PtrTy())
        ok = isinstance(tp, Ptr) and tp.r in x.ghost.get("heap", ())
        rd = stdfn.get(x, Ptr(r, C["on_read"]))
        ex.oblige(x, "register_timer_event: the timer record holds the given callback and parameter and belongs to the registration",
                  z3.And(b64(ex.load(x, Ptr(tp.r, L.off(TS, "param")), _PtrTy()).off) == prm.off, z3.BoolVal(stdfn.get(x, Ptr(tp.r, L.off(TS, "on_timer"))) is not None and stdfn.get(x, Ptr(tp.r, L.off(TS, "on_timer"))).name == ("on_timer",))) if ok else F, "postcondition")
        ex.oblige(x, "register_timer_event: readiness of the timer runs the timer dispatcher", T if isinstance(rd, stdfn.Target) and "_on_timer_event_callback" in str(x_dem(rd.name[1])) else F, "postcondition")
        w = stdfn.get(x, Ptr(r, C["on_write"]))
        ex.oblige(x, "register_timer_event: a timer has no write callback", z3.Not(lp.has(x, r, "on_write")), "postcondition")
        se = [q for q in x.trace if q[0] == "settime"]
        m64 = z3.ZeroExt(32, ms)
        ex.oblige(x, "register_timer_event: the timer repeats at the given interval",
                  z3.And(se[0][1] == n, se[0][2] == 0, *[z3.And(se[0][3 + 2 * k] == z3.UDiv(m64, bv(1000)), se[0][4 + 2 * k] == z3.URem(m64, bv(1000)) * 1000000) for k in (0, 1)]) if len(se) == 1 else F, "postcondition")
        e = lp.cf(x, r, "event", 4)
        ex.oblige(x, "register_timer_event: the descriptor is the timer's and is watched for reading", z3.And(lp.cf(x, r, "fd", 4) == n, lp.cf(x, r, "timer", 1) == 1, lp.cf(x, r, "id", 4) == i, z3.Or(e == 1, z3.And(x.ghost["failed"], e == 0))), "postcondition")
        if "born" in C: ex.oblige(x, "register_timer_event: the registration carries the round it was made in", lp.cf(x, r, "born", 8) == lp.counts(x), "protocol")
        free_list_after_pop(lp, ex, x, r, s, "register_timer_event")
        lp.frame(x, r, "register_timer_event")
    ex.run(st, member("Looper", "register_timer_event"), [Ptr(rid), ms, prm, Ptr(r0.id)], ret)


def x_dem(n): return M.dem.get(n, n)


def t_delete(timer):
    def f(v):
        lp = Lp(v, "delete_event")
        ex, st = lp.ex, State()
        rid = lp.start(st)
        i, s = live_id(lp, st, ex)
        t = st.ghost["tab"]
        st.assume(t.timer(s) == (T if timer else F))
        h0 = lp.head(st)
        if timer:
            TS = "cyclone::Looper::timer_s"
            r = ex.new_reg(st, "timer", "cells", L.sizeof(TS))
            r.heap = True
            st.ghost["heap"] = (r.id,)
            st.ghost["timerparam"] = Ptr(r.id)
        v.cover(ex, st)

        def ret(x, _):
            ex.oblige(x, "delete_event: the lock is released", T if not x.ghost["locked"] else F, "resource")
            r = lp.chan(x, s)
            lp.frame(x, r, "delete_event")
            if r is None:
                ex.oblige(x, "delete_event: only an invalid id is ignored", i == bv(INV, 32), "postcondition")
                return
            ex.oblige(x, "delete_event: nothing is enabled any more and the kernel no longer watches the descriptor", z3.And(lp.cf(x, r, "event", 4) == 0, lp.cf(x, r, "active", 1) == 0, z3.Not(x.ghost["kern"][r][0]), lp.cf(x, r, "id", 4) == i), "postcondition")
            ex.oblige(x, "delete_event: the slot is put in front of the free list", z3.And(lp.head(x) == i, lp.cf(x, r, "next", 4) == h0), "postcondition")
            c = [q for q in x.trace if q[0] == "close"]
            if timer: ex.oblige(x, "delete_event: a timer's descriptor is closed and its record freed, once", z3.And(c[0][1] == t.fd(s), z3.BoolVal(not x.ghost["heap"])) if len(c) == 1 else F, "resource")
            else: ex.oblige(x, "delete_event: a descriptor that is not the loop's is not closed", T if not c else F, "resource")
        ex.run(st, member("Looper", "delete_event"), [Ptr(rid), i], ret)
    return f


def t_poll(v):
    lp = Lp(v, "_poll")
    ex, st = lp.ex, State()
    rid = lp.start(st)
    ex.loop_specs.append((re.compile(".*Looper_epoll::.*"), None, Events(lp)))
    ls = {}
    ps = []
    for nm in ("read", "write"):
        r = ex.new_reg(st, nm, "cells", 24)
        ls[(r.id, 0)] = {"size": bv(0), "name": nm, "fn": None}
        ps.append(Ptr(r.id))
    st.ghost["lists"] = ls
    lp.block = ex.fresh("block", 1)
    st.ghost["got"] = None
    v.cover(ex, st)

    def ret(x, _):
        g = x.ghost["got"]
        ex.oblige(x, "_poll: the kernel is asked once", T if g is not None else F, "postcondition")
        if x.ghost["iter"] is not None: lp.exhausted(x, "_poll")
        else: ex.oblige(x, "_poll: reported events are not skipped", g <= 0, "postcondition")
    ex.run(st, member("Looper_epoll", "_poll"), [Ptr(rid)] + ps + [lp.block], ret)


def t_loop(name):
    def f(v):
        lp = Lp(v, name, True)
        lp.block = None
        ex, st = lp.ex, State()
        rid = lp.start(st)
        if name == "step": ex.store_cell(st, rid, LOOPF["m_inner_pipe"], 8, Ptr(0, bv(0)))
        ex.loop_specs.append((re.compile(".*cyclone::Looper::.*"), None, Round(lp)))
        v.cover(ex, st)

        def ret(x, _):
            tr = x.trace
            lp.exhausted(x, name)
            ex.oblige(x, f"{name}: no lock is held", T if not x.ghost["locked"] else F, "resource")
            po = [t for t in tr if t[0] == "poll"]
            for t in po: ex.oblige(x, f"{name}: the loop {'waits for events' if name == 'loop' else 'does not wait'}", (to_bool(t[1]) if not z3.is_bool(t[1]) else t[1]) == (T if name == "loop" else F), "postcondition")
            if name == "loop":
                ex.oblige(x, "loop: it returns only when a stop was requested", x.ghost["quit"], "postcondition")
                rg_, de = [t for t in tr if t[0] == "register"], [t for t in tr if t[0] == "delete"]
                if rg_ or de or po:
                    t = rg_[0] if rg_ else None
                    ok = len(rg_) == 1 and len(de) == 1 and isinstance(t[4], stdfn.Target) and "_on_inner_pipe_touched" in str(x_dem(t[4].name[1]))
                    ex.oblige(x, "loop: the wakeup pipe is watched while the loop runs, and only then", z3.And(de[0][1] == t[5], t[1] == x.ghost["port"], t[2] == 1, z3.BoolVal(isinstance(t[3], Ptr) and t[3].r == rid)) if ok else F, "postcondition")
                    ex.oblige(x, "loop: the wakeup pipe is not referenced after the loop", T if is_null(ex.load_cell(x, rid, LOOPF["m_inner_pipe"], 8, _PtrTy())) else F, "postcondition")
            else:
                ex.oblige(x, "step: one round, unless a stop was requested", z3.Or(x.ghost["quit"], T if len(po) == 1 and set(x.ghost.get("donelists", ())) == {"read", "write"} else F), "postcondition")
        ex.run(st, member("Looper", name), [Ptr(rid)], ret)
    return f


def t_timer_cb(v):
    lp = Lp(v, "_on_timer_event_callback")
    ex, st = lp.ex, State()
    rid = lp.start(st)
    TS = "cyclone::Looper::timer_s"
    r = ex.new_reg(st, "timer", "cells", L.sizeof(TS))
    prm = ex.fresh("param")
    ex.store_cell(st, r.id, L.off(TS, "param"), 8, Ptr(0, prm))
    pres = ex.fresh("has", 1)
    stdfn.put(st, Ptr(r.id, L.off(TS, "on_timer")), stdfn.Target(("on_timer",), pres))
    i, fd = ex.fresh("id", 32), ex.fresh("fd", 32)

    def call(ex, st, t, p, args, I):
        ex.oblige(st, "the timer callback is the one registered and gets its id and parameter", z3.And(z3.BoolVal(t.name == ("on_timer",)), args[0] == i, b64(args[1].off) == prm), "postcondition", I.line)
        ex.oblige(st, "the callable that runs is not part of the timer record (the callback may delete its timer)", T if p.r != r.id else F, "memory", I.line)
        rec(st, "fired")
        st.wreg(r.id).alive = False
    stdfn.install(ex, call)
    lp.on_call = call

    def ret(x, _):
        n = sum(1 for t in x.trace if t[0] == "fired")
        rd = [t for t in x.trace if t[0] == "read"]
        ex.oblige(x, "a timer event runs its callback once (if there is one)", z3.BoolVal(n == 1) == pres if n < 2 else F, "postcondition")
        ex.oblige(x, "the expiration count is consumed", z3.And(rd[0][1] == fd, rd[0][2] == 8) if len(rd) == 1 else F, "postcondition")
    ex.run(st, member("Looper", "_on_timer_event_callback"), [i, fd, bv(1, 32), Ptr(r.id)], ret)


def t_ctor(v):
    lp = Lp(v, "Looper_epoll()")
    ex, st = lp.ex, State()
    rid = lp.start(st)
    st.wreg(rid).cells.clear()

    def ret(x, _):
        ex.oblige(x, "a new loop has no registrations and an empty free list", z3.And(x.ghost["n"] == 0, lp.head(x) == bv(INV, 32)), "postcondition")
        ex.oblige(x, "a new loop has room for events", z3.UGE(x.ghost["nev"], 1), "postcondition")
        ex.oblige(x, "a new loop is not asked to stop", z3.And(lp.cell(x, LOOPF["m_quit_cmd"], 4) == 0, lp.cell(x, LOOPF["m_inner_pipe_touched"], 4) == 0), "postcondition")
    ex.run(st, member("Looper_epoll", "Looper_epoll"), [Ptr(rid)], ret)


def t_lemmas(v):
    """the free list stays a list of distinct free slots: a slot pushed in front of it, or popped from it, keeps the invariant"""
    nx = z3.Function("nx", B64, B64)
    free = z3.Function("fr", B64, z3.BoolSort())
    h, p, i, j = z3.BitVecs("h p i j", 64)
    inv = bv(INV, 64)

    def at(nx, free, h, i): return z3.Implies(free(i), z3.And(i != inv, z3.Or(nx(i) == inv, free(nx(i))), z3.Or(h == inv, nx(i) != h)))
    def inj(nx, free, i, j): return z3.Implies(z3.And(free(i), free(j), nx(i) == nx(j), nx(i) != inv), i == j)
    pre = [z3.Or(h == inv, free(h))] + [at(nx, free, h, x) for x in (i, j, h, p)] + [inj(nx, free, x, y) for x, y in ((i, j), (i, h), (j, h))]
    nx2 = lambda x: z3.If(x == p, h, nx(x))
    fr2 = lambda x: z3.Or(x == p, free(x))
    push = pre + [z3.Not(free(p)), p != inv]
    v.lemma("delete_event's push keeps the free list invariant", push, z3.And(at(nx2, fr2, p, i), inj(nx2, fr2, i, j)))
    fr3 = lambda x: z3.And(x != h, free(x))
    v.lemma("register_event's pop keeps the free list invariant", pre + [h != inv], z3.And(z3.Or(nx(h) == inv, fr3(nx(h))), at(nx, fr3, nx(h), i), inj(nx, fr3, i, j)))


def tasks(tier):
    return [(f"Looper::{n}", t_op(n)) for n in OPS] + [("Looper::is_read", t_is("is_read", 1)), ("Looper::is_write", t_is("is_write", 2)), ("Looper::register_event", t_register),
            ("Looper::register_timer_event", t_timer), ("Looper::delete_event of an event", t_delete(False)), ("Looper::delete_event of a timer", t_delete(True)), ("Looper_epoll::_poll", t_poll),
            ("Looper::loop", t_loop("loop")), ("Looper::step", t_loop("step")), ("Looper::_on_timer_event_callback", t_timer_cb), ("Looper_epoll constructor", t_ctor), ("free list lemmas", t_lemmas)]


def replay(failed, errors, seed, tier):
    H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "loop_harness.cpp")
    S = "source/"
    b = bld.native("loop", H, [S + "cyEvent/event/cye_looper.cpp", S + "cyEvent/event/internal/cye_looper_epoll.cpp", S + "cyEvent/event/internal/cye_create_looper.cpp", S + "cyEvent/event/cye_pipe.cpp",
                               S + "cyCore/core/cyc_system_api.cpp", S + "cyCore/core/cyc_socket_api.cpp"], flags=nat.ASAN, libs=("-pthread", "-Wl,--wrap=read,--wrap=close"))
    return nat.confirm(b, [], [], seed, 30 if tier == "quick" else 300)
