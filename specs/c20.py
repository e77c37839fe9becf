"""C20  timed waits and sleeps use exact, normalised deadlines; signals are neither lost nor invented"""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from dv.loops import changed_regions
from . import osm
from .osm import find, rec, calls

M = L = None
TRUSTED = libc.TRUST_TEXT + [
    "pthread mutexes exclude each other; pthread_cond_(timed)wait releases the mutex while waiting, re-acquires it before returning, may wake spuriously, and returns ETIMEDOUT no earlier than its CLOCK_REALTIME deadline",
    "clock_gettime/gettimeofday return the current time with tv_nsec below 10^9 and tv_usec below 10^6; nanosleep sleeps the time asked for or reports the remainder with EINTR"]
ASSUMPTIONS = ["timeouts are in [0, 2^31-1] ms; the clock shows a non-negative time before the year 2255",
               "other threads touch a signal's predicate only through these functions (each of them is proved to write it only while holding the mutex, and to leave it 0 or 1)",
               "performance_time_now and thread_join are not under contract"]
SRC = ["source/cyCore/core/cyc_system_api.cpp"]
NS = "cyclone::sys_api::"
SEC, DAY = 10 ** 9, 9 * 10 ** 9


def build():
    global M, L
    M, L = bld.module(SRC)


def s64(ex, s, p): return ex.load(s, p, _IntTy(64))


class Monitor:
    """ghost view of one mutex-protected cell"""
    def __init__(self, ex, st, mutex, cell=None):
        self.ex, self.mutex, self.cell = ex, mutex, cell
        st.ghost["held"] = False
        st.ghost["holds"] = ()           # (value at acquisition, value at release)

    def acquire(self, st):
        st.ghost["held"] = True
        if self.cell:
            p = self.ex.fresh("predicate", 32)
            st.assume(z3.Or(p == 0, p == 1))
            self.ex.store_cell(st, self.cell.r, self.cell.off, 4, p)
            st.ghost["acq"] = p

    def release(self, st, I):
        self.ex.oblige(st, "the mutex is held when it is released or waited with", T if st.ghost["held"] else F, "lock", I.line)
        st.ghost["held"] = False
        if self.cell:
            v = self.ex.load(st, self.cell, _IntTy(32))
            self.ex.oblige(st, "the predicate is 0 or 1 whenever the mutex is released", z3.Or(v == 0, v == 1), "lock", I.line)
            st.ghost["holds"] = st.ghost["holds"] + ((st.ghost["acq"], v),)

    def is_mutex(self, st, p, I):
        ok = isinstance(p, Ptr) and p.r == self.mutex.r and is_c(p.off) and cval(p.off) == cval(self.mutex.off)
        self.ex.oblige(st, "the object's own mutex is used", T if ok else F, "lock", I.line)


def install(ex, mon, ms, own=None):
    """ms: the timeout of the call under contract (32-bit) or None"""
    libc.install(ex)
    osm.install_errno(ex)
    osm.install_log(ex)

    def lock(ex, st, a, I):
        mon.is_mutex(st, a[0], I)
        ex.oblige(st, "the mutex is not already held by this thread", T if not st.ghost["held"] else F, "lock", I.line)
        mon.acquire(st)
        rec(st, "lock")
        return bv(0, 32)
    ex.on(r"^pthread_mutex_lock$", lock)

    def unlock(ex, st, a, I):
        mon.is_mutex(st, a[0], I)
        mon.release(st, I)
        rec(st, "unlock")
        return bv(0, 32)
    ex.on(r"^pthread_mutex_unlock$", unlock)

    def attempt(name, errs):
        def h(ex, st, a, I):
            mon.is_mutex(st, a[0], I)
            if name == "timedlock": deadline(ex, st, a[1], I)
            got = ex.fresh("got", 1)
            e = ex.fresh(name, 32)

            def ok(s):
                mon.acquire(s)
                rec(s, name, True)
                return bv(0, 32)

            def no(s):
                s.assume(z3.Or([e == x for x in errs]))
                rec(s, name, False)
                return e
            return osm.alts(ex, st, [(got, ok), (z3.Not(got), no)])
        return h
    ex.on(r"^pthread_mutex_trylock$", attempt("trylock", [16]))
    ex.on(r"^pthread_mutex_timedlock$", attempt("timedlock", [110]))

    def deadline(ex, st, p, I):
        sec, ns = s64(ex, st, p), s64(ex, st, Ptr(p.r, add64(p.off, 8)))
        ex.oblige(st, "the deadline's nanoseconds are normalised", z3.And(ns >= 0, ns < SEC), "callee precondition", I.line)
        t = st.ghost.get("now", ())
        ex.oblige(st, "the deadline is computed from the current CLOCK_REALTIME", T if len(t) else F, "callee precondition", I.line)
        if not t: raise PathEnd()
        s0, n0 = t[-1]
        ex.oblige(st, "the deadline is exactly now plus the timeout", z3.And(sec >= 0, sec < 1 << 34, sec * SEC + ns == s0 * SEC + n0 + z3.SignExt(32, ms) * 1000000), "callee precondition", I.line)

    def tod(ex, st, a, I):
        s, u = ex.fresh("tv_sec"), ex.fresh("tv_usec")
        st.assume(s >= 0, s < DAY, u >= 0, u < 1000000)
        ex.store(st, a[0], s, 8, I.line)
        ex.store(st, Ptr(a[0].r, add64(a[0].off, 8)), u, 8, I.line)
        st.ghost["now"] = st.ghost.get("now", ()) + ((s, u * 1000),)
        return bv(0, 32)
    ex.on(r"^gettimeofday$", tod)

    def clock(ex, st, a, I):
        s, n = ex.fresh("ts_sec"), ex.fresh("ts_nsec")
        st.assume(s >= 0, s < DAY, n >= 0, n < SEC)
        ex.store(st, a[1], s, 8, I.line)
        ex.store(st, Ptr(a[1].r, add64(a[1].off, 8)), n, 8, I.line)
        if ex.valid(st, a[0] == 0): st.ghost["now"] = st.ghost.get("now", ()) + ((s, n),)
        return bv(0, 32)
    ex.on(r"^clock_gettime$", clock)

    def cond_ok(ex, st, p, I):
        ok = isinstance(p, Ptr) and own is not None and p.r == own.r and cval(p.off) == cval(own.off)
        ex.oblige(st, "the object's own condition variable is used", T if ok else F, "lock", I.line)

    def wait(timed):
        def h(ex, st, a, I):
            cond_ok(ex, st, a[0], I)
            mon.is_mutex(st, a[1], I)
            if timed: deadline(ex, st, a[2], I)
            mon.release(st, I)
            mon.acquire(st)
            rec(st, "timedwait" if timed else "wait")
            if not timed: return bv(0, 32)
            e = ex.fresh("timedwait", 32)
            st.assume(z3.Or(e == 0, e == 110))
            st.ghost["timedout"] = e == 110
            return e
        return h
    ex.on(r"^pthread_cond_wait$", wait(False))
    ex.on(r"^pthread_cond_timedwait$", wait(True))
    if ms is not None and False: pass

    def notify(ex, st, a, I):
        cond_ok(ex, st, a[0], I)
        rec(st, "notify", ex.load(st, mon.cell, _IntTy(32)) if mon.cell else None)
        return bv(0, 32)
    ex.on(r"^pthread_cond_(signal|broadcast)$", notify)


class Again(Exception): pass


def again(v, body):
    """body(loops' dropped guesses) until the guesses kept are kept by every round"""
    dropped = set()
    while True:
        try: return body(dropped)
        except Again:
            v.res.obls.clear()
            v.execs.clear()


class WaitLoop:
    """a loop around a condition wait: everything the other threads may have done is in the monitor; the invariant is the monitor's"""
    def __init__(self, mon, dropped): self.mon, self.dropped = mon, dropped

    def flags(self, hdr, phis, to):
        """locals that tell whether the last wait ended at the deadline (guessed from their first value, kept only if every round keeps them)"""
        for I, x in phis.items():
            if z3.is_expr(x) and (z3.is_bv(x) or z3.is_bool(x)):
                t = x if z3.is_bool(x) else x != 0
                for neg in (False, True):
                    if (hdr.idx, I.name, neg) not in self.dropped: yield (hdr.idx, I.name, neg), z3.Not(t) == to if neg else t == to

    def enter(self, ex, st, hdr, phis):
        to = st.ghost.get("timedout", F)
        for k, g in list(self.flags(hdr, phis, to)):
            if not ex.valid(st, g): self.dropped.add(k)
        line = hdr.insts[-1].line
        ex.oblige(st, "waiting loop: the mutex is held at the loop head", T if st.ghost["held"] else F, "loop invariant", line)
        self.unlost(ex, st, line)
        for I in phis: phis[I] = ex.fresh_of(I.ty, I.name or "v")
        st.ghost["timedout"] = to = z3.FreshConst(z3.BoolSort(), "timedout")
        for k, g in self.flags(hdr, phis, to): st.assume(g)
        self.mon.acquire(st)        # any earlier iteration: an arbitrary value seen on the last acquisition
        st.ghost["holds"] = ()
        st.ghost["waited"] = True
        return dict(st.mem)

    def unlost(self, ex, st, line):
        """so far no signal was taken: each release left the value it was acquired with, and so does the open section"""
        cur = ex.load(st, self.mon.cell, _IntTy(32))
        ex.oblige(st, "waiting loop: no signal has been consumed or invented so far", z3.And([a == b for a, b in st.ghost["holds"]] + [cur == st.ghost["acq"]]), "loop invariant", line)

    def back(self, ex, st, hdr, phis, snap):
        line = hdr.insts[-1].line
        ex.oblige(st, "waiting loop: the mutex is held at the loop head", T if st.ghost["held"] else F, "loop invariant", line)
        bad = [k for k, g in self.flags(hdr, phis, st.ghost["timedout"]) if not ex.valid(st, g)]
        self.dropped.update(bad)
        if bad: raise Again()
        self.unlost(ex, st, line)
        ch = [r for r in changed_regions(st, snap) if r != self.mon.cell.r and r != st.ghost.get("errno")]
        if ch: raise Unsupported(f"waiting loop writes {ch}")
        n = len([t for t in st.trace if t[0] in ("wait", "timedwait")])
        ex.oblige(st, "waiting loop: every iteration waits (no busy loop)", T if n else F, "loop invariant", line)


def sig_obj(ex, st):
    cls = "cyclone::sys_api::signal_s"
    r = ex.new_reg(st, "signal", "cells", L.sizeof(cls))
    F_ = ["mutex", "cond", "predicate"]
    return r.id, Ptr(r.id, L.off(cls, "mutex", F_)), Ptr(r.id, L.off(cls, "cond", F_)), Ptr(r.id, L.off(cls, "predicate", F_))


def holds(s): return s.ghost["holds"]


def done(ex, s, what): ex.oblige(s, f"{what}: the mutex is released on return", T if not s.ghost["held"] else F, "lock")


def consumed(ex, s, what, cond):
    h = holds(s)
    ex.oblige(s, f"{what}: the last section found the signal set and cleared it", z3.Implies(cond, z3.And(h[-1][0] == 1, h[-1][1] == 0)) if h else z3.Not(cond), "postcondition")
    ex.oblige(s, f"{what}: no other section changed the signal", z3.And([a == b for a, b in h[:-1]] + ([z3.Implies(z3.Not(cond), h[-1][0] == h[-1][1])] if h else [])), "postcondition")


def t_wait(v): again(v, lambda d: wait_(v, d))


def wait_(v, dropped):
    ex = v.exec(M, "signal_wait")
    st = State()
    rid, mu, co, pr = sig_obj(ex, st)
    mon = Monitor(ex, st, mu, pr)
    install(ex, mon, None, co)
    ex.loop_specs.append((re.compile(".*"), None, WaitLoop(mon, dropped)))
    v.cover(ex, st)

    def ret(s, r):
        done(ex, s, "signal_wait")
        consumed(ex, s, "signal_wait", T)
    ex.run(st, find(M, NS + "signal_wait"), [Ptr(rid)], ret)


def t_timewait(v): again(v, lambda d: timewait_(v, d))


def timewait_(v, dropped):
    ex = v.exec(M, "signal_timewait")
    st = State()
    rid, mu, co, pr = sig_obj(ex, st)
    mon = Monitor(ex, st, mu, pr)
    ms = ex.fresh("ms", 32)
    st.assume(ms >= 0)
    install(ex, mon, ms, co)
    ex.loop_specs.append((re.compile(".*"), None, WaitLoop(mon, dropped)))
    ex.cexfn = lambda s, m: {"ms": m.eval(ms, model_completion=True).as_signed_long()}
    v.cover(ex, st)

    def ret(s, r):
        done(ex, s, "signal_timewait")
        consumed(ex, s, "signal_timewait", r)
        blocked = [t for t in s.trace if t[0] in ("wait", "timedwait", "lock")]
        ex.oblige(s, "signal_timewait: a zero timeout never waits for the mutex or the signal", z3.Implies(ms == 0, F) if blocked else T, "postcondition")
        ex.oblige(s, "signal_timewait: only the timed wait is used", T if not calls(s, "wait") else F, "postcondition")
        to = s.ghost.get("timedout")
        tried = [t for t in s.trace if t[0] == "trylock"]
        ex.oblige(s, "signal_timewait: gives up only at the deadline, or at once for a zero timeout", z3.Or(r, ms == 0, to if to is not None else F), "postcondition")
        # a zero timeout gives up at once only if the signal was not set (or its mutex is busy)
        h = holds(s)
        ex.oblige(s, "signal_timewait: a set signal is taken even with a zero timeout", z3.Implies(z3.And(ms == 0, z3.Not(r)), h[-1][0] == 0) if h else z3.Or(r, T if tried and not tried[-1][1] else F), "postcondition")
    ex.run(st, find(M, NS + "signal_timewait"), [Ptr(rid), ms], ret)


def t_notify(v):
    ex = v.exec(M, "signal_notify")
    st = State()
    rid, mu, co, pr = sig_obj(ex, st)
    mon = Monitor(ex, st, mu, pr)
    install(ex, mon, None, co)
    v.cover(ex, st)

    def ret(s, r):
        done(ex, s, "signal_notify")
        h = holds(s)
        ex.oblige(s, "signal_notify: the signal is set when the mutex is released", h[-1][1] == 1 if h else F, "postcondition")
        k = [i for i, t in enumerate(s.trace) if t[0] == "notify"]
        ex.oblige(s, "signal_notify: a waiter is woken, after the signal was set", calls(s, "notify")[-1][1] == 1 if k else F, "postcondition")
    ex.run(st, find(M, NS + "signal_notify"), [Ptr(rid)], ret)


def t_life(v):
    ex = v.exec(M, "signal_create/destroy")
    libc.install(ex)
    st = State()
    for n in ("mutex_init", "cond_init", "mutex_destroy", "cond_destroy"):
        def h(ex, s, a, I, n=n):
            rec(s, n, a[0], a[1] if len(a) > 1 else None)
            return bv(0, 32)
        ex.on(rf"^pthread_{n}$", h)
    cls = "cyclone::sys_api::signal_s"
    F_ = ["mutex", "cond", "predicate"]
    om, oc, op = (L.off(cls, f, F_) for f in F_)

    def made(s, r):
        ok = isinstance(r, Ptr) and r.r in s.mem
        ex.oblige(s, "a new signal is returned", T if ok else F, "postcondition")
        if not ok: return
        ex.oblige(s, "a new signal is not set", ex.load(s, Ptr(r.r, op), _IntTy(32)) == 0, "postcondition")
        i = {(t[0], cval(t[1].off)): t for t in s.trace if t[1].r == r.r}
        ex.oblige(s, "its mutex and condition are initialised with default attributes (CLOCK_REALTIME)",
                  T if ("mutex_init", om) in i and ("cond_init", oc) in i and is_null(i[("cond_init", oc)][2]) and is_null(i[("mutex_init", om)][2]) else F, "postcondition")

        def gone(t, _):
            ex.oblige(t, "a destroyed signal releases its storage, mutex and condition", T if not t.mem[r.r].alive and len(calls(t, "mutex_destroy")) == 1 and len(calls(t, "cond_destroy")) == 1 else F, "resource")
        ex.run(s, find(M, NS + "signal_destroy"), [r], gone)
    ex.run(st, find(M, NS + "signal_create"), [], made)


def t_trylock(v):
    ex = v.exec(M, "mutex_try_lock")
    st = State()
    r = ex.new_reg(st, "mutex", "cells", L.sizeof("cyclone::sys_api::mutex_data_s"))
    mon = Monitor(ex, st, Ptr(r.id, 0))
    ms = ex.fresh("wait_time_ms", 32)
    install(ex, mon, ms)
    ex.cexfn = lambda s, m: {"ms": m.eval(ms, model_completion=True).as_signed_long()}
    v.cover(ex, st)

    def ret(s, res):
        ex.oblige(s, "mutex_try_lock: reports success exactly when the lock is held", res == (T if s.ghost["held"] else F), "postcondition")
        ex.oblige(s, "mutex_try_lock: exactly one attempt", T if len(s.trace) == 1 else F, "postcondition")
        ex.oblige(s, "mutex_try_lock: waits only for a positive timeout, and then up to the deadline", (ms > 0) == (T if s.trace and s.trace[0][0] == "timedlock" else F), "postcondition")
    ex.run(st, find(M, NS + "mutex_try_lock"), [Ptr(r.id), ms], ret)
    for fn, held in (("mutex_lock", True), ("mutex_unlock", False)):
        ex = v.exec(M, fn)
        st = State()
        r = ex.new_reg(st, "mutex", "cells", L.sizeof("cyclone::sys_api::mutex_data_s"))
        mon = Monitor(ex, st, Ptr(r.id, 0))
        st.ghost["held"] = not held
        install(ex, mon, None)
        ex.run(st, find(M, NS + fn), [Ptr(r.id)], lambda s, res: ex.oblige(s, f"{fn}: the mutex is {'held' if held else 'free'} afterwards", T if s.ghost["held"] == held else F, "postcondition"))


class SleepLoop:
    """nanosleep retried with the remainder after EINTR"""
    def enter(self, ex, st, hdr, phis):
        st.ghost["looped"] = True
        for I in phis: phis[I] = ex.fresh_of(I.ty, I.name or "v")
        line = hdr.insts[-1].line
        ts = [r for r in st.mem.values() if r.kind == "cells" and r.size == 16 and 0 in r.cells and 8 in r.cells and r.alive]
        if len(ts) != 1: raise Unsupported("the timespec slept on is not recognisable")
        rid = ts[0].id
        self.check(ex, st, rid, line)
        R, s, n = ex.fresh("remaining"), ex.fresh("sec"), ex.fresh("nsec")
        st.assume(s >= 0, s < 1 << 32, n >= 0, n < SEC, R == s * SEC + n)
        ex.store_cell(st, rid, 0, 8, s)
        ex.store_cell(st, rid, 8, 8, n)
        st.ghost["remaining"] = R
        return (dict(st.mem), rid)

    def check(self, ex, st, rid, line):
        s, n = s64(ex, st, Ptr(rid, 0)), s64(ex, st, Ptr(rid, 8))
        ex.oblige(st, "sleep: the request is exactly the remaining time, normalised", z3.And(s >= 0, s < 1 << 32, n >= 0, n < SEC, s * SEC + n == st.ghost["remaining"]), "loop invariant", line)

    def back(self, ex, st, hdr, phis, saved):
        snap, rid = saved
        line = hdr.insts[-1].line
        ch = [r for r in changed_regions(st, snap) if r not in (rid, st.ghost.get("errno"))]
        if ch: raise Unsupported("sleep loop writes other objects")
        self.check(ex, st, rid, line)


def t_sleep(v):
    ex = v.exec(M, "thread_sleep")
    libc.install(ex)
    osm.install_errno(ex)
    st = State()
    ms = ex.fresh("msec", 32)
    st.assume(ms >= 0)
    st.ghost["remaining"] = z3.SignExt(32, ms) * 1000000
    st.ghost["slept"] = False

    def nanosleep(ex, st, a, I):
        s, n = s64(ex, st, a[0]), s64(ex, st, Ptr(a[0].r, add64(a[0].off, 8)))
        ex.oblige(st, "nanosleep is asked for exactly the remaining time, normalised", z3.And(s >= 0, n >= 0, n < SEC, s * SEC + n == st.ghost["remaining"]), "callee precondition", I.line)
        okc = ex.fresh("slept", 1)

        def ok(t):
            t.ghost["slept"] = True
            return bv(0, 32)

        def intr(t):
            s2, n2 = ex.fresh("rem_sec"), ex.fresh("rem_nsec")
            t.assume(s2 >= 0, s2 < 1 << 32, n2 >= 0, n2 < SEC, s2 * SEC + n2 <= s * SEC + n)
            t.ghost["remaining"] = s2 * SEC + n2
            rem = a[1]
            if not is_null(rem):
                ex.store(t, rem, s2, 8, I.line)
                ex.store(t, Ptr(rem.r, add64(rem.off, 8)), n2, 8, I.line)
            rid = osm.errno_reg(ex, t)
            ex.store_cell(t, rid, 0, 4, bv(4, 32))
            return bv(-1, 32)
        return osm.alts(ex, st, [(okc, ok), (z3.Not(okc), intr)])
    ex.on(r"^nanosleep$", nanosleep)
    ex.loop_specs.append((re.compile(r".*sleep_for.*"), None, SleepLoop()))
    v.cover(ex, st)

    def ret(s, r):
        ex.oblige(s, "thread_sleep returns only after the whole time has passed", z3.Or(ms == 0, T if s.ghost["slept"] else F), "postcondition")
    ex.run(st, find(M, NS + "thread_sleep"), [ms], ret)


def t_clock(v):
    ex = v.exec(M, "utc_time_now")
    st = State()
    mon = Monitor(ex, st, Ptr(0, 0))
    install(ex, mon, None)

    def ret(s, r):
        t = s.ghost.get("now", ())
        ex.oblige(s, "utc_time_now is the current time in microseconds", r * 1000 == t[-1][0] * SEC + t[-1][1] if t else F, "postcondition")
    ex.run(st, find(M, NS + "utc_time_now"), [], ret)


def tasks(tier):
    return [("sys_api::signal_wait", t_wait), ("sys_api::signal_timewait", t_timewait), ("sys_api::signal_notify", t_notify), ("sys_api::signal_create/destroy", t_life),
            ("sys_api::mutex_try_lock/lock/unlock", t_trylock), ("sys_api::thread_sleep", t_sleep), ("sys_api::utc_time_now", t_clock)]


def replay(failed, errors, seed, tier):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = bld.native("sysapi", os.path.join(root, "harness/sysapi_harness.cpp"), SRC, flags=("-O1", "-g"), libs=("-pthread", "-ldl"))
    return nat.confirm(h, [], [], seed, 10)


native_search = True
