"""C15  work-thread messages arrive once, in order, with no lost wakeup.

Protocol (ghost): armed = "since the receiver last consumed a wakeup byte it has set the empty flag"; clear = "since then a pop has found the queue empty".
Invariant for every interleaving:  armed and not flag  =>  a wakeup byte is in the pipe or a sender is about to write one;
clear  =>  queue empty, or a sender has pushed and not yet tried to wake, or a byte is in the pipe or about to be.
The receiver may return to sleep only with armed and clear, so it can never sleep with a message and no wakeup pending."""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from dv.loops import Houdini, Restart, changed_regions
from . import rg, stdfn, osm
from .osm import rec

M = L = None
SRC = ["source/cyEvent/event/cye_work_thread.cpp"]
CLS = "cyclone::WorkThread"
TRUSTED = libc.TRUST_TEXT + stdfn.TRUST + ["one byte written to the non-blocking wakeup pipe is delivered (fewer than 65536 senders are inside send_message at once)",
                                          "the event loop calls the registered read callback while a byte is in the pipe (C14)"]
ASSUMPTIONS = ["interleavings of sequentially consistent atomic steps", "only the work thread pops its queue (single consumer: C05)",
               "a message refused by a full queue (65535 waiting messages) is not accepted", "exceptions thrown by callbacks are not considered"]
FIELDS = ["m_name", "m_thread", "m_looper", "m_is_queue_empty", "m_pipe", "m_message_queue", "m_on_start", "m_on_message"]
MSG = z3.Function("message", z3.BitVecSort(64), z3.BitVecSort(64))


def build():
    global M, L, OFF
    M, L = bld.module(SRC)
    OFF = {}
    for f in FIELDS: OFF[f] = L.off(CLS, f, FIELDS)


def find(p): return osm.find(M, p)


class WT:
    def __init__(self, v, fn):
        self.ex = ex = v.exec(M, fn)
        libc.install(ex)
        stdfn.install(ex, self.on_call)
        ex.on(r"^std::operator&\(std::memory_order, std::__memory_order_modifier\)$", lambda ex, st, a, I: a[0] & a[1])
        ex.on(r"^cyclone::sys_api::thread_yield\(\)$", lambda ex, st, a, I: None)
        ex.on(r"^cyclone::Packet::alloc_packet\(cyclone::Packet const\*\)$", self.alloc)
        ex.on(r"^cyclone::Packet::build_from_memory\(", self.build_packet)
        ex.on(r"^cyclone::Packet::free_packet\(cyclone::Packet\*\)$", self.free)
        ex.on(r"^cyclone::LockFreeQueue<cyclone::Packet\*, \d+u>::push\(", self.push)
        ex.on(r"^cyclone::LockFreeQueue<cyclone::Packet\*, \d+u>::pop\(", self.pop)
        ex.on(r"^cyclone::LockFreeQueue<cyclone::Packet\*, \d+u>::size\(\) const$", lambda ex, st, a, I: ex.fresh("size", 32))
        ex.on(r"^cyclone::Pipe::write\(", self.write_pipe)
        ex.on(r"^cyclone::Pipe::read\(", self.read_pipe)
        ex.on(r"^cyclone::sys_api::thread_get_current_id\(\)$", lambda ex, st, a, I: ex.fresh("tid"))
        ex.on(r"^cyclone::Looper::get_thread_id\(\) const$", lambda ex, st, a, I: ex.fresh("tid"))
        ex.on(r"^std::operator[=!]=\(std::thread::id, std::thread::id\)$", lambda ex, st, a, I: T if "==" in ex.m.dem[I.extra.val] else F)
        ex.on(r"^__assert_fail$", self.assert_fail)

    def assert_fail(self, ex, st, a, I):
        ex.oblige(st, "assertion holds", F, "assertion", I.line)
        raise PathEnd()

    def start(self, st):
        ex = self.ex
        w = ex.new_reg(st, "workthread", "cells", L.sizeof(CLS))
        self.w = w.id
        st.ghost.update(armed=True, clear=True, cur=None, packets={}, sent=bv(0), flag=ex.fresh("flag", 1))
        rg.attach(ex, rg.Shared(ex, [w.id], self.env, self.read, self.write))
        return w.id

    def env(self, ex, st): st.ghost["flag"] = ex.fresh("flag", 1)

    # ---- the flag
    def read(self, ex, st, p, ty, line):
        if p.off != OFF["m_is_queue_empty"]:
            if p.off == OFF["m_looper"]: return self.looper_ptr(st) if hasattr(self, "looper_ptr") else Ptr(0, ex.fresh("looper"))
            raise Unsupported(f"work thread field at {p.off}")
        rec(st, "flag", st.ghost["flag"], None)
        return bool_to_bv(st.ghost["flag"], ty.size * 8) if ty.kind == "int" and ty.bits == 8 else st.ghost["flag"]

    def write(self, ex, st, p, v, size, line):
        if p.off != OFF["m_is_queue_empty"]:
            if p.off == OFF["m_looper"]:
                st.ghost["looper"] = v
                return
            raise Unsupported(f"work thread field at {p.off}")
        v = z3.simplify(v if z3.is_bool(v) else v != 0)
        if not (z3.is_true(v) or z3.is_false(v)): raise Unsupported("flag set to a computed value")
        new = z3.is_true(v)
        ex.oblige(st, "the flag is written with sequentially consistent order", T if ex.cur.order == rg.SEQ else F, "memory order", line)
        old = st.ghost["flag"] if ex.rmw is not None else None
        rec(st, "set", old, new)
        if self.role == "sender": ex.oblige(st, "a sender never sets the empty flag", F if new else T, "guarantee", line)
        else: st.ghost["armed"] = new if new else False
        if not new and self.role == "receiver": st.ghost["clear"] = False
        st.ghost["flag"] = T if new else F

    # ---- packets
    def alloc(self, ex, st, a, I):
        r = ex.new_reg(st, "packet", "cells", 64)
        src = a[0]
        st.ghost["packets"] = {**st.ghost["packets"], r.id: ("empty",) if is_null(src) else ("copy", src)}
        return Ptr(r.id)

    def own(self, ex, st, p, I, what):
        c = st.ghost["packets"].get(p.r) if isinstance(p, Ptr) else None
        ex.oblige(st, f"{what}: the sender still owns the packet (it is not used after it was queued or freed)", T if c is not None else F, "ownership", I.line)
        if c is None: raise PathEnd()
        return c

    def build_packet(self, ex, st, a, I):
        self.own(ex, st, a[0], I, "build_from_memory")
        st.ghost["packets"] = {**st.ghost["packets"], a[0].r: ("built",) + tuple(a[1:])}

    def free(self, ex, st, a, I):
        if self.role == "receiver":
            cur = st.ghost["cur"]
            ok = cur is not None and isinstance(a[0], Ptr) and a[0].r == cur[0]
            ex.oblige(st, "only the packet just popped is freed, once", T if ok else F, "ownership", I.line)
            if not ok: raise PathEnd()
            ex.oblige(st, "a popped packet is delivered to the message callback before it is freed", T if cur[1] else z3.Not(self.cb(ex, st)), "postcondition", I.line)
            st.ghost["cur"] = None
            return
        self.own(ex, st, a[0], I, "free_packet")
        st.ghost["packets"] = {k: v for k, v in st.ghost["packets"].items() if k != a[0].r}

    def push(self, ex, st, a, I):
        p = ex.load(st, a[1], _PtrTy(), I.line)
        if self.role == "receiver": raise Unsupported("the receiver pushes into its own queue")
        c = self.own(ex, st, p, I, "push")
        st.ghost["packets"] = {k: v for k, v in st.ghost["packets"].items() if k != p.r}
        self.accept(ex, st, c, I)
        ok = ex.fresh("accepted", 1)

        def yes(s):
            rec(s, "push", T)
            return T

        def no(s):
            rec(s, "push", F)
            s.ghost["packets"] = {**s.ghost["packets"], p.r: ("refused",)}
            return F
        return osm.alts(ex, st, [(ok, yes), (z3.Not(ok), no)])

    def write_pipe(self, ex, st, a, I):
        if self.role == "receiver": raise Unsupported("the receiver writes to its own pipe")
        ok = isinstance(a[0], Ptr) and a[0].r == self.w and a[0].off == OFF["m_pipe"]
        ex.oblige(st, "the wakeup goes to the thread's own pipe", T if ok else F, "callee precondition", I.line)
        ex.oblige(st, "a wakeup is one byte, readable at the source", a[2] == 1, "callee precondition", I.line)
        ex.check_access(st, ex.resolve(st, a[1]), 1, False, I.line, "wakeup byte")
        rec(st, "write")
        return bv(1)

    # ---- receiver
    def read_pipe(self, ex, st, a, I):
        if self.role == "sender": raise Unsupported("a sender reads the wakeup pipe")
        n = a[2]
        ex.oblige(st, "wakeup bytes are read into storage large enough", z3.And(n >= 1, z3.ULE(n, 1 << 20)), "callee precondition", I.line)
        if is_c(n): ex.check_access(st, ex.resolve(st, a[1]), cval(n), True, I.line, "wakeup buffer")
        r = ex.fresh("read")
        st.assume(r >= -1, r <= n)

        def got(s):
            s.ghost.update(armed=False, clear=False)
            q = ex.resolve(s, a[1])
            for k in range(cval(n) if is_c(n) else 0): ex.store(s, Ptr(q.r, add64(q.off, k)), ex.fresh("byte", 8), 1, I.line)
            return r
        return osm.alts(ex, st, [(r > 0, got), (r <= 0, lambda s: r)])

    def pop(self, ex, st, a, I):
        if self.role == "sender": raise Unsupported("a sender pops the message queue")
        ex.oblige(st, "the previous message was delivered and freed before the next one is taken", T if st.ghost["cur"] is None else F, "postcondition", I.line)
        ok = ex.fresh("popped", 1)

        def yes(s):
            r = ex.new_reg(s, "message", "cells", 64)
            ex.store(s, a[1], Ptr(r.id), 8, I.line)
            s.ghost["cur"] = (r.id, False)
            return T

        def no(s):
            s.ghost["clear"] = s.ghost["clear"] or s.ghost["armed"]
            return F
        return osm.alts(ex, st, [(ok, yes), (z3.Not(ok), no)])

    def cb(self, ex, st):
        p = Ptr(self.w, OFF["m_on_message"])
        t = stdfn.get(st, p)
        if t is None:
            t = stdfn.Target("m_on_message", ex.fresh("has_callback", 1))
            stdfn.put(st, p, t)
        return t.present

    def on_call(self, ex, st, t, p, args, I):
        if p.r == self.w and p.off == OFF["m_on_message"]:
            cur = st.ghost["cur"]
            q = args[0]
            ok = self.role == "receiver" and cur is not None and isinstance(q, Ptr) and q.r == cur[0] and q.off == 0 and not cur[1]
            ex.oblige(st, "the message callback gets exactly the message just taken from the queue, once", T if ok else F, "postcondition", I.line)
            if not ok: raise PathEnd()
            st.ghost["cur"] = (cur[0], True)
            return None
        if p.r == self.w and p.off == OFF["m_on_start"]:
            r = ex.fresh("started", 1)
            rec(st, "on_start", r)
            return r
        raise Unsupported("unknown callback")


def sender_done(ex, s, what):
    """evidence that the receiver will see the pushed messages"""
    tr = s.trace
    last = max([i for i, t in enumerate(tr) if t[0] == "push" and not z3.is_false(t[1])], default=None)
    if last is not None:
        ev = [z3.Not(t[1]) for t in tr[last + 1:] if t[0] == "flag"] + [T for t in tr[last + 1:] if t[0] == "write"]
        ex.oblige(s, f"{what}: after the last message was queued the receiver is woken, or another sender is seen to have claimed the wakeup", z3.Or(z3.Not(tr[last][1]), *ev), "postcondition")
    for i, t in enumerate(tr):
        if t[0] == "set" and t[2] is False:
            woke = any(u[0] == "write" for u in tr[i + 1:])
            ex.oblige(s, f"{what}: whoever clears the empty flag writes a wakeup byte", T if woke else (z3.Not(t[1]) if t[1] is not None else F), "postcondition")
    ex.oblige(s, f"{what}: no packet is left behind", T if all(c[0] == "refused" for c in s.ghost["packets"].values()) else F, "resource")


def t_send_build(v):
    w = WT(v, "send_message(id, parts)")
    ex = w.ex
    w.role = "sender"
    st = State()
    rid = w.start(st)
    i, s1, s2 = ex.fresh("id", 16), ex.fresh("size1", 16), ex.fresh("size2", 16)
    p1, p2 = ex.fresh_ptr("part1"), ex.fresh_ptr("part2")

    def accept(ex, st, c, I):
        ok = c[0] == "built" and len(c) == 7
        ex.oblige(st, "the queued message is built from exactly the given id and parts",
                  z3.And(c[1] == 4, c[2] == i, c[3] == s1, c[4].off == p1.off, c[5] == s2, c[6].off == p2.off) if ok else F, "postcondition", I.line)
        st.ghost["sent"] = z3.simplify(st.ghost["sent"] + 1)
    w.accept = accept

    def ret(s, r):
        ex.oblige(s, "exactly one message is queued", s.ghost["sent"] == 1, "postcondition")
        sender_done(ex, s, "send_message")
    ex.run(st, find("cyclone::WorkThread::send_message(unsigned short, unsigned short, char const*, unsigned short, char const*)"), [Ptr(rid), i, s1, p1, s2, p2], ret)


def t_send_copy(v):
    w = WT(v, "send_message(packet)")
    ex = w.ex
    w.role = "sender"
    st = State()
    rid = w.start(st)
    pk = ex.fresh_ptr("packet")
    st.assume(pk.off != 0)

    def accept(ex, st, c, I):
        ex.oblige(st, "the queued message is a copy of the given packet", c[1].off == pk.off if c[0] == "copy" else F, "postcondition", I.line)
        st.ghost["sent"] = z3.simplify(st.ghost["sent"] + 1)
    w.accept = accept

    def ret(s, r):
        ex.oblige(s, "exactly one message is queued", s.ghost["sent"] == 1, "postcondition")
        sender_done(ex, s, "send_message")
    ex.run(st, find("cyclone::WorkThread::send_message(cyclone::Packet const*)"), [Ptr(rid), pk], ret)


def t_send_many(v):
    def gen(ex, st, hdr, phis):
        n = st.ghost["counts"]
        for g in [g for g in phis if g.op == "ghost"]:
            yield "0 <= sent <= counts", lambda e, g=g: z3.And(e[g] >= 0, z3.Or(e[g] <= z3.SignExt(32, n), e[g] == 0))
            for I in [I for I in phis if I.op != "ghost" and z3.is_bv(phis[I])]:
                b = phis[I].size()
                yield f"{I.name} is the number of messages sent", lambda e, g=g, I=I, b=b: (z3.SignExt(64 - b, e[I]) if b < 64 else e[I]) == e[g]
                yield f"{I.name} is the number of messages left", lambda e, g=g, I=I, b=b: (z3.SignExt(64 - b, e[I]) if b < 64 else e[I]) == z3.SignExt(32, n) - e[g]

    def after(ex, st, hdr, phis, names):
        st.trace = [("push", ex.fresh("anyaccepted", 1))]
        st.ghost["packets"] = {}
    h = Houdini(re.compile(".*send_message.*"), gen, after=after, ghosts=["sent"])

    def make():
        w = WT(v, "send_message(packets)")
        ex = w.ex
        w.role = "sender"
        h.attach(ex)
        st = State()
        rid = w.start(st)
        n = ex.fresh("counts", 32)
        st.ghost["counts"] = n
        arr = ex.new_reg(st, "packets", "cells", 8 * (1 << 31))
        old = ex.access_hook

        def hook(ex, st, p, ty, wv, line):
            if p.r == arr.id:
                if wv is not None: raise Unsupported("the packet array is written")
                return Ptr(0, MSG(z3.simplify(b64(p.off) / 8)))
            return old(ex, st, p, ty, wv, line)
        ex.access_hook = hook
        v.cover(ex, st)

        def accept(ex, st, c, I):
            ex.oblige(st, "each queued message is a copy of the next packet of the array", c[1].off == MSG(st.ghost["sent"]) if c[0] == "copy" else F, "postcondition", I.line)
            st.ghost["sent"] = z3.simplify(st.ghost["sent"] + 1)
        w.accept = accept

        def ret(s, r):
            ex.oblige(s, "every packet of the array is queued once", s.ghost["sent"] == z3.If(n > 0, z3.SignExt(32, n), bv(0)), "postcondition")
            sender_done(ex, s, "send_message")
        return ex, lambda: ex.run(st, find("cyclone::WorkThread::send_message(cyclone::Packet const**, int)"), [Ptr(rid), Ptr(arr.id), n], ret)
    h.solve(make)


class DrainLoop:
    """knowledge flags (armed, clear) are weakened at a loop head when an iteration loses them; no message is in hand at a loop head"""

    def __init__(self): self.weak, self.hav = {}, {}

    def enter(self, ex, st, hdr, phis):
        k = (st.frames[-1].fn.name, hdr.idx)
        line = hdr.insts[-1].line
        for g in self.weak.get(k, ()): st.ghost[g] = False
        ex.oblige(st, "no message is in hand at a loop head", T if st.ghost["cur"] is None else F, "loop invariant", line)
        for I, v in phis.items():
            if isinstance(v, Ptr): raise Unsupported("loop-carried pointer")
            phis[I] = ex.fresh_of(I.ty, I.name or "v")
        for r in list(st.mem.values()):
            if r.name in self.hav.get(k, ()):
                for o, (v, n) in list(r.cells.items()):
                    ex.store_cell(st, r.id, o, n, Ptr(0, ex.fresh("hav")) if isinstance(v, Ptr) else ex.fresh("hav", 8 * n))
        return dict(st.mem), {g: st.ghost[g] for g in ("armed", "clear")}

    def back(self, ex, st, hdr, phis, saved):
        snap, know = saved
        k = (st.frames[-1].fn.name, hdr.idx)
        line = hdr.insts[-1].line
        lost = {g for g, v in know.items() if v and not st.ghost[g]}
        h = self.hav.setdefault(k, set())
        new = {st.mem[r].name for r in changed_regions(st, snap) if r in st.mem} - h
        if lost or new:
            h |= new
            self.weak.setdefault(k, set()).update(lost)
            raise Restart()
        ex.oblige(st, "no message is in hand at a loop head", T if st.ghost["cur"] is None else F, "loop invariant", line)


def t_receive(v):
    loop = DrainLoop()

    def make():
        w = WT(v, "_on_message")
        ex = w.ex
        w.role = "receiver"
        ex.loop_specs.append((re.compile(".*"), None, loop))
        st = State()
        rid = w.start(st)
        w.cb(ex, st)
        v.cover(ex, st)

        def ret(s, r):
            ex.oblige(s, "every message taken from the queue was delivered and freed", T if s.ghost["cur"] is None else F, "postcondition")
            ex.oblige(s, "the receiver goes to sleep only after it set the empty flag since it last consumed a wakeup byte", T if s.ghost["armed"] else F, "protocol")
            ex.oblige(s, "the receiver goes to sleep only after it found the queue empty since it set the empty flag", T if s.ghost["clear"] else F, "protocol")
        return ex, lambda: ex.run(st, find("cyclone::WorkThread::_on_message"), [Ptr(rid)], ret)
    rg.solve(make)


def t_protocol(v):
    """the invariant is preserved by every step of every thread, and implies the property"""
    qn, by, pc, pw = z3.Ints("queued bytes pushed_not_tried clearing")
    flag, armed, clear = z3.Bools("flag armed clear")

    def inv(qn, flag, by, pc, pw, armed, clear):
        return z3.And(qn >= 0, by >= 0, pc >= 0, pw >= 0, z3.Implies(z3.And(armed, z3.Not(flag)), z3.Or(by > 0, pw > 0)),
                      z3.Implies(clear, z3.And(armed, z3.Or(qn == 0, pc > 0, by > 0, pw > 0))))
    s = (qn, flag, by, pc, pw, armed, clear)
    steps = {
        "sender: queue a message": (T, (qn + 1, flag, by, pc + 1, pw, armed, clear)),
        "sender: clear the set flag": (z3.And(pc > 0, flag), (qn, F, by, pc - 1, pw + 1, armed, clear)),
        "sender: see the flag cleared": (z3.And(pc > 0, z3.Not(flag)), (qn, flag, by, pc - 1, pw, armed, clear)),
        "sender: write the wakeup byte": (pw > 0, (qn, flag, by + 1, pc, pw - 1, armed, clear)),
        "receiver: consume wakeup bytes": (by > 0, (qn, flag, by - 1, pc, pw, F, F)),
        "receiver: set the empty flag": (T, (qn, T, by, pc, pw, T, clear)),
        "receiver: take a message": (qn > 0, (qn - 1, flag, by, pc, pw, armed, clear)),
        "receiver: find the queue empty": (qn == 0, (qn, flag, by, pc, pw, armed, z3.Or(clear, armed))),
    }
    for n, (g, post) in steps.items(): v.lemma(f"{n} preserves the wakeup invariant", [inv(*s), g], inv(*post))
    v.lemma("a new work thread satisfies the invariant", [], inv(z3.IntVal(0), T, z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), T, T))
    v.lemma("asleep with no sender active and a message queued, a wakeup byte is in the pipe", [inv(*s), clear, pc == 0, pw == 0, qn > 0], by > 0)


def t_ctor(v):
    w = WT(v, "WorkThread()")
    ex = w.ex
    ex.access_hook = None
    st = State()
    r = ex.new_reg(st, "workthread", "cells", L.sizeof(CLS))
    ex.on(r"^cyclone::Pipe::Pipe\(\)$", lambda ex, st, a, I: None)
    ex.on(r"^cyclone::LockFreeQueue<cyclone::Packet\*, \d+u>::LockFreeQueue\(\)$", lambda ex, st, a, I: None)
    ex.on(r"^std::(__cxx11::)?basic_string<.*>::basic_string\(\)$", lambda ex, st, a, I: None)

    def ret(s, _):
        ex.oblige(s, "a new work thread's empty flag is set", ex.load(s, Ptr(r.id, OFF["m_is_queue_empty"]), _IntTy(8)) == 1, "postcondition")
    ex.run(st, find("cyclone::WorkThread::WorkThread"), [Ptr(r.id)], ret)


def t_thread(v):
    w = WT(v, "_work_thread")
    ex = w.ex
    w.role = "receiver"
    st = State()
    rid = w.start(st)
    prm = ex.new_reg(st, "param", "cells", 16)
    st.ghost["looper"] = Ptr(0, ex.fresh("looper"))
    w.looper_ptr = lambda st: st.ghost["looper"]
    old = ex.access_hook

    def hook(ex, st, p, ty, wv, line):
        if p.r == prm.id:
            if wv is not None:
                ex.oblige(st, "the start parameter is not touched after the ready signal", T if not any(t[0] == "ready" for t in st.trace) else F, "ownership", line)
                if wv[1] == 4: rec(st, "ready", wv[0])
                return True
            ex.oblige(st, "the start parameter is not touched after the ready signal", T if not any(t[0] == "ready" for t in st.trace) else F, "ownership", line)
            return Ptr(rid) if ty.size == 8 else ex.fresh("ready", 32)
        return old(ex, st, p, ty, wv, line)
    ex.access_hook = hook

    def create(ex, st, a, I):
        r = ex.new_reg(st, "looper", "cells", 4096)
        rec(st, "create", r.id)
        return Ptr(r.id)
    ex.on(r"^cyclone::Looper::create_looper\(\)$", create)
    ex.on(r"^cyclone::Looper::destroy_looper\(", lambda ex, st, a, I: rec(st, "destroy", a[0].r if isinstance(a[0], Ptr) else None))
    ex.on(r"^cyclone::Looper::loop\(\)$", lambda ex, st, a, I: rec(st, "loop", a[0].r))
    ex.on(r"^cyclone::Pipe::get_(read|write)_port\(\)$", lambda ex, st, a, I: (rec(st, "port", ex.m.dem[I.extra.val], a[0].off), st.ghost.setdefault("port" + ex.m.dem[I.extra.val], ex.fresh("port", 32)))[1])

    def bind(ex, st, a, I):
        # a[0] is the result object (sret) when it is returned in memory
        args = a
        target, this = None, None
        for x in args:
            if isinstance(x, Ptr) and x.r in st.mem:
                try: y = ex.load(st, x, _PtrTy())
                except Unsupported: continue
                if isinstance(y, FnPtr): target = y.name
                elif isinstance(y, Ptr) and y.r == rid: this = y
        stdfn.put(st, args[0], ("bound", ex.m.dem.get(target, target), this))
        return None
    ex.on(r"^std::_Bind_helper<.*std::bind<.*", bind)

    def register(ex, st, a, I):
        cb, wcb = stdfn.get(st, a[4]), stdfn.get(st, a[5]) if len(a) > 5 else None
        rec(st, "register", a[0].r, a[1], a[2], cb)
        return ex.fresh("event_id", 32)
    ex.on(r"^cyclone::Looper::register_event\(", register)
    v.cover(ex, st)

    def ret(s, r):
        tr = s.trace
        k = {n: [i for i, t in enumerate(tr) if t[0] == n] for n in ("create", "register", "ready", "on_start", "loop", "destroy")}
        ex.oblige(s, "exactly one event loop is created and it is destroyed exactly once, last", T if len(k["create"]) == 1 and len(k["destroy"]) == 1 and tr[k["destroy"][0]][1] == tr[k["create"][0]][1] and k["destroy"][0] == max(max(x, default=-1) for x in k.values()) else F, "resource")
        port = [t for t in tr if t[0] == "port"]
        ok = len(k["register"]) == 1 and len(k["ready"]) == 1 and k["register"][0] < k["ready"][0]
        ex.oblige(s, "the wakeup pipe is registered before the thread reports ready", T if ok else F, "postcondition")
        if ok:
            t = tr[k["register"][0]]
            ex.oblige(s, "the registration watches the wakeup pipe's read end for reading", z3.And(t[2] == s.ghost["port" + port[0][1]], t[3] == 1) if len(port) == 1 and "get_read_port" in port[0][1] and port[0][2] == OFF["m_pipe"] else F, "postcondition")
            ex.oblige(s, "the registration calls _on_message of this work thread", T if isinstance(t[4], tuple) and "WorkThread::_on_message" in str(t[4][1]) and t[4][2] is not None and t[4][2].off == 0 else F, "postcondition")
            ex.oblige(s, "the ready signal is non-zero", tr[k["ready"][0]][1] != 0, "postcondition")
        st_ = [tr[i][1] for i in k["on_start"]]
        ex.oblige(s, "the thread loops exactly when its start callback agrees (or there is none)", (z3.And([x for x in st_]) if st_ else T) == (T if len(k["loop"]) == 1 else F), "postcondition")
        p = s.ghost["looper"]
        ex.oblige(s, "the destroyed loop is no longer referenced", T if is_null(p) else F, "postcondition")
    ex.run(st, find("cyclone::WorkThread::_work_thread"), [Ptr(rid), Ptr(prm.id)], ret)


def tasks(tier):
    return [("WorkThread::send_message(id, parts)", t_send_build), ("WorkThread::send_message(packet)", t_send_copy), ("WorkThread::send_message(packets)", t_send_many),
            ("WorkThread::_on_message", t_receive), ("WorkThread::WorkThread", t_ctor), ("WorkThread::_work_thread", t_thread), ("wakeup protocol", t_protocol)]


def replay(failed, errors, seed, tier):
    H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "wt_harness.cpp")
    S = "source/"
    b = bld.scheduled("wt", H, [S + "cyEvent/event/cye_work_thread.cpp", S + "cyEvent/event/cye_packet.cpp", S + "cyEvent/event/cye_pipe.cpp", S + "cyEvent/event/cye_looper.cpp", S + "cyEvent/event/internal/cye_looper_epoll.cpp",
                              S + "cyEvent/event/internal/cye_create_looper.cpp", S + "cyCore/core/cyc_system_api.cpp", S + "cyCore/core/cyc_socket_api.cpp", S + "cyCore/core/cyc_logger.cpp", S + "cyCore/core/cyc_ring_buf.cpp", S + "cyCrypt/crypt/cyr_adler32.cpp"])
    return nat.confirm(b, [], [], seed, 40 if tier == "quick" else 600)
