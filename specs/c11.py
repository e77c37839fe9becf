"""C11  windowed and min/max statistics report exactly the recorded values.

PeriodValue: the queue (contract discharged by C04) is the sequence of samples TS(k), VAL(k) for lo <= k < hi of everything ever recorded; SUM is the prefix sum.
MinMaxValue: rely-guarantee, both cells move monotonically and only to recorded values."""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from dv.loops import Houdini, changed_regions
from . import rg, stdfn, stl, osm
from .osm import rec

M = L = None
PV = [("int", 32, True, "int32_t"), ("unsigned long", 64, True, "size_t"), ("long", 64, False, "int64_t")]
MM = [("int", 32, True, "int32_t"), ("unsigned long", 64, False, "size_t"), ("long", 64, True, "int64_t"), ("unsigned int", 32, False, "uint32_t")]
WRAP = "#include <cy_core.h>\n#include <utility/cyu_statistics.h>\nusing namespace cyclone;\n" + \
       "".join(f"template struct cyclone::PeriodValue<{t}, {'true' if l else 'false'}>;\n" for _, _, l, t in PV) + \
       "".join(f"template struct cyclone::MinMaxValue<{t}>;\n" for *_, t in MM) + "template struct cyclone::MinMaxValue<float>;\ntemplate struct cyclone::MinMaxValue<double>;\n"
TRUSTED = libc.TRUST_TEXT + stdfn.TRUST + ["RingQueue operations through the sequence contract discharged by C04", "mutexes exclude each other (C20)"]
ASSUMPTIONS = ["recording and query times do not decrease and stay within +-2^61 ms; the clock is past its first millisecond", "fewer than 2^31 samples in the window; sums wrap as the value type does",
               "floating point trackers: constructors only (their update is the same template)"]
B64 = z3.BitVecSort(64)
TS = z3.Function("ts", B64, B64)
T0 = 1 << 61


def build():
    global M, L
    M, L = bld.module([], text=WRAP)


def fns(cls, what):
    c = [d for d in M.bydem if d.startswith(f"{cls}::{what}(") and "::{lambda" not in d and not M.fn(M.bydem[d]).decl]
    if len(c) != 1: raise Unsupported(f"{len(c)} functions {cls}::{what}")
    return c[0]


def cname(c, l):
    p = f"cyclone::PeriodValue<{c}, {'true' if l else 'false'}, "
    for d in M.bydem:
        m = re.match(re.escape(p) + r"[^>]*>", d)
        if m: return m.group(0)
    raise Unsupported("no instantiation " + p)


def lkey(kind, c):
    names = {c} | {t for x, *_, t in PV + MM if x == c}
    k = [k for k in L.d for n in names if re.match(rf"cyclone::{kind}<{re.escape(n)}[,>]", k) and "::" not in k[len("cyclone::"):]]
    if not k: raise Unsupported(f"no layout of {kind}<{c}>")
    return k[0]


class P:
    """one PeriodValue object and its recorded history"""
    FIELDS = ["m_time_period", "m_valueQueue", "m_lock"]

    def __init__(self, v, c, bits, lock, fn):
        self.ex = ex = v.exec(M, f"PeriodValue<{c}>::{fn}")
        self.c, self.bits, self.lock = c, bits, lock
        self.cls = cname(c, lock)
        self.VAL = z3.Function(f"val{bits}", B64, z3.BitVecSort(bits))
        self.SUM = z3.Function(f"sum{bits}", B64, z3.BitVecSort(bits))
        libc.install(ex)
        stdfn.install(ex)
        k = lkey("PeriodValue", c)
        self.off = {f: L.off(k, f, self.FIELDS) for f in self.FIELDS}
        Q = r"^cyclone::RingQueue<std::pair<long, [a-z ]+> ?>::"
        for n, h in (("push", self.push), ("get_free_size", self.free), ("front", self.front), ("back", self.back), ("get", self.get), ("pop", self.pop), ("empty", self.empty),
                     ("size", self.size), ("reset", self.reset), ("walk", self.walk), ("RingQueue", self.qctor), ("~RingQueue", lambda *a: None)):
            ex.on(Q + n + r"\(", self.locked(h, n))
        ex.on(r"^cyclone::sys_api::mutex_lock\(", self.do_lock)
        ex.on(r"^cyclone::sys_api::mutex_unlock\(", self.do_unlock)
        ex.on(r"^cyclone::sys_api::mutex_create\(", lambda ex, st, a, I: (rec(st, "create"), Ptr(0, ex.fresh("mutex")))[1])
        ex.on(r"^cyclone::sys_api::mutex_destroy\(", lambda ex, st, a, I: rec(st, "destroy", a[0]))
        ex.on(r"^cyclone::sys_api::performance_time_now\(\)$", self.now)
        ex.on(r"^std::function<bool \(unsigned long, std::pair<long, .*::function<cyclone::PeriodValue.*lambda.*", self.fn_ctor)

    def start(self, st):
        ex = self.ex
        o = ex.new_reg(st, "pv", "cells", 4096)
        self.o = o.id
        self.period = ex.fresh("period", 32)
        self.lo0, self.hi0 = ex.fresh("lo"), ex.fresh("hi")
        st.assume(self.period >= 0, z3.ULE(self.lo0, self.hi0), z3.ULT(self.hi0, 1 << 60), z3.ULT(self.hi0 - self.lo0, (1 << 31) - 2))
        self.mutex = Ptr(0, ex.fresh("mutex"))
        ex.store_cell(st, o.id, self.off["m_time_period"], 4, self.period)
        ex.store_cell(st, o.id, self.off["m_lock"], 8, self.mutex)
        self.last = ex.fresh("last_time")         # every earlier recording and query happened at or before this time
        st.assume(self.last >= 0, self.last <= T0)
        st.ghost.update(lo=self.lo0, hi=self.hi0, held=False, now=None)
        r = ex.new_reg(st, "samples", "elems", None)
        w = st.mem[r.id]
        w.stride, w.count, w.heap = 16, bv(1 << 62), True
        w.fields = {0: ("int", 8, lambda i: TS(b64(i))), 8: ("int", self.bits // 8, lambda i: self.VAL(b64(i)))}
        self.samples = r.id
        # recorded times do not decrease; the prefix sum
        self.sorted_on(st)
        st.foralls.append((self.SUM.name(), lambda k: self.SUM(k + 1) == self.SUM(k) + self.VAL(k)))
        return o.id

    def sorted_on(self, st):
        h = st.ghost["hi"]
        st.foralls.append(("ts", lambda k: z3.And(z3.Implies(z3.ULT(k, self.hi0), z3.And(TS(k) >= 0, TS(k) <= self.last)))))

    def monotone(self, a, b): return z3.Implies(z3.And(z3.ULE(a, b), z3.ULT(b, self.hi0)), TS(a) <= TS(b))

    def use(self, st, *ks):
        """instances of 'recorded times do not decrease' among these positions (and one probe position)"""
        st.ghost["ks"] = st.ghost.get("ks", ()) + tuple(ks)
        for a in ks:
            for b in st.ghost["ks"]:
                st.assume(self.monotone(a, b), self.monotone(b, a))

    def do_lock(self, ex, st, a, I):
        ex.oblige(st, "the object's own mutex is locked, once", z3.And(b64(a[0].off) == self.mutex.off, T if a[0].r == 0 and not st.ghost["held"] else F), "lock", I.line)
        st.ghost["held"] = True

    def do_unlock(self, ex, st, a, I):
        ex.oblige(st, "the object's own mutex is unlocked while held", z3.And(b64(a[0].off) == self.mutex.off, T if a[0].r == 0 and st.ghost["held"] else F), "lock", I.line)
        st.ghost["held"] = False

    def locked(self, h, n):
        def f(ex, st, a, I):
            if n in ("RingQueue", "~RingQueue"): return h(ex, st, a, I)
            ok = isinstance(a[0], Ptr) and a[0].r == self.o and a[0].off == self.off["m_valueQueue"]
            if not ok: raise Unsupported("another queue")
            if self.lock and not (n == "size" and self.unlocked_size): ex.oblige(st, "the samples are accessed only while the lock is held", T if st.ghost["held"] else F, "lock", I.line)
            return h(ex, st, a, I)
        return f
    unlocked_size = False

    def now(self, ex, st, a, I):
        t = ex.fresh("clock")
        st.assume(t >= 1000, t <= T0)
        q = ex.fresh("clock_ms")
        st.assume(q == t / 1000, q >= self.last)
        st.ghost["now"] = q
        return t

    # queue contract
    def n(self, st): return z3.simplify(st.ghost["hi"] - st.ghost["lo"])

    def need(self, ex, st, c, what, I): ex.oblige(st, what, c, "callee precondition", I.line)

    def elem(self, st, k):
        self.use(st, k)
        return Ptr(self.samples, 0, k)

    def push(self, ex, st, a, I):
        t, v = ex.load(st, a[1], _IntTy(64)), ex.load(st, Ptr(a[1].r, add64(a[1].off, 8), a[1].idx), _IntTy(self.bits))
        rec(st, "push", t, v)
        st.ghost["hi"] = z3.simplify(st.ghost["hi"] + 1)
        st.ghost["pushed"] = (t, v)
        if self.role == "push":
            st.assume(TS(self.hi0) == t, self.VAL(self.hi0) == v)

    def free(self, ex, st, a, I): return ex.fresh("free")

    def front(self, ex, st, a, I):
        self.need(ex, st, st.ghost["hi"] != st.ghost["lo"], "front() of a non-empty queue", I)
        return self.elem(st, st.ghost["lo"])

    def back(self, ex, st, a, I):
        self.need(ex, st, st.ghost["hi"] != st.ghost["lo"], "back() of a non-empty queue", I)
        return self.elem(st, z3.simplify(st.ghost["hi"] - 1))

    def get(self, ex, st, a, I):
        self.need(ex, st, z3.ULT(a[1], self.n(st)), "get() inside the queue", I)
        return self.elem(st, z3.simplify(st.ghost["lo"] + a[1]))

    def drop(self, ex, st, new, I):
        """samples lo..new-1 are dropped: each of them must have left the window"""
        k = ex.fresh("dropped")
        st.assume(z3.Implies(z3.And(z3.ULE(st.ghost["lo"], k), z3.ULT(k, new)), T))
        s = st.clone()
        s.assume(z3.ULE(st.ghost["lo"], k), z3.ULT(k, new))
        self.use(s, k)
        cur = self.cur(s)
        ex.oblige(s, "only samples that have left the window are dropped", TS(k) < cur - z3.SignExt(32, self.period), "postcondition", I.line)
        st.ghost["lo"] = new

    def pop(self, ex, st, a, I):
        n = a[1] if len(a) > 1 else bv(1)
        new = z3.simplify(z3.If(z3.UGE(n, self.n(st)), st.ghost["hi"], st.ghost["lo"] + n))
        self.drop(ex, st, new, I)

    def reset(self, ex, st, a, I): self.drop(ex, st, st.ghost["hi"], I)
    def empty(self, ex, st, a, I): return st.ghost["hi"] == st.ghost["lo"]
    def size(self, ex, st, a, I): return self.n(st)
    def qctor(self, ex, st, a, I): rec(st, "queue", a[0].off, a[1] if len(a) > 1 else bv(0))

    def cur(self, st): return st.ghost["now"] if st.ghost["now"] is not None else self.at

    # walk with the summing callback
    def fn_ctor(self, ex, st, a, I): stdfn.put(st, a[0], ("lambda", a[1]))

    def walk(self, ex, st, a, I):
        t = stdfn.get(st, a[1])
        if not (isinstance(t, tuple) and t[0] == "lambda"): raise Unsupported("walk with an unknown callback")
        lam = t[1]
        body = [d for d in M.bydem if d.startswith(self.cls) and re.search(r"\{lambda\(unsigned long, std::pair<long, [a-z ]+> const&\)#1\}::operator\(\)\(", d) and not M.fn(M.bydem[d]).decl]
        if len(body) != 1: raise Unsupported("walk callback body not found")
        caps = [ex.load(st, Ptr(lam.r, add64(lam.off, o)), _PtrTy()) for o, (v, n) in sorted(st.mem[lam.r].cells.items()) if n == 8 and isinstance(v, Ptr)]
        if len(caps) != 2: raise Unsupported("walk callback captures")
        lo, hi = st.ghost["lo"], st.ghost["hi"]
        base = [ex.load(st, p, _IntTy(b)) for p, b in ((caps[0], self.bits), (caps[1], 32))]

        def setto(s, k):
            ex.store(s, caps[0], z3.simplify(base[0] + (self.SUM(k) - self.SUM(lo))), self.bits // 8)
            ex.store(s, caps[1], z3.simplify(base[1] + z3.Extract(31, 0, k - lo)), 4)

        # one arbitrary step of the callback
        k = ex.fresh("k")
        s = st.clone()
        s.assume(z3.ULE(lo, k), z3.ULT(k, hi))
        setto(s, k)
        snap = dict(s.mem)
        def after(u, r):
            ok = ex.boolval(r)
            ex.oblige(u, "the callback visits every sample", ok, "loop invariant", I.line)
            s1, c1 = ex.load(u, caps[0], _IntTy(self.bits)), ex.load(u, caps[1], _IntTy(32))
            ex.oblige(u, "the callback adds exactly the sample's value", s1 == base[0] + (self.SUM(k + 1) - self.SUM(lo)), "loop invariant", I.line)
            ex.oblige(u, "the callback counts exactly one sample", c1 == base[1] + z3.Extract(31, 0, k + 1 - lo), "loop invariant", I.line)
            ch = [r for r in changed_regions(u, snap) if r not in (caps[0].r, caps[1].r)]
            if ch: raise Unsupported("walk callback changes other objects")
        frames, s.frames = s.frames, []
        ex.run(s, body[0], [lam, z3.simplify(k - lo), Ptr(self.samples, 0, k)], after)
        setto(st, hi)


def t_query(c, bits, lock, explicit):
    def body(v):
        def gen(ex, st, hdr, phis):
            p = cell["p"]
            lo, hi = st.ghost["lo"], st.ghost["hi"]
            exp = p.cur(st) - z3.SignExt(32, p.period)
            ints = [I for I in phis if z3.is_bv(phis[I]) and phis[I].size() == 64]
            for I in ints:
                yield f"{I.name} is inside the queue", lambda e, I=I: z3.ULT(e[I], hi - lo)
                yield f"{I.name} is inside the queue or its end", lambda e, I=I: z3.ULE(e[I], hi - lo)
                yield f"sample {I.name} has expired", lambda e, I=I: TS(z3.simplify(lo + e[I])) < exp
                yield f"sample {I.name} has not expired", lambda e, I=I: TS(z3.simplify(lo + e[I])) >= exp
                yield f"every sample before {I.name} has expired", lambda e, I=I: z3.Or(e[I] == 0, TS(z3.simplify(lo + e[I] - 1)) < exp)
                yield f"sample {I.name} has not expired or is the end", lambda e, I=I: z3.Or(e[I] == hi - lo, TS(z3.simplify(lo + e[I])) >= exp)
                for J in ints:
                    if I is not J:
                        yield f"{I.name} < {J.name}", lambda e, I=I, J=J: z3.ULT(e[I], e[J])
                        yield f"{I.name} <= {J.name}", lambda e, I=I, J=J: z3.ULE(e[I], e[J])

        def after(ex, st, hdr, phis, names):
            p = cell["p"]
            for I in phis:
                if z3.is_bv(phis[I]) and phis[I].size() == 64: p.use(st, z3.simplify(st.ghost["lo"] + phis[I]), z3.simplify(st.ghost["lo"] + phis[I] - 1))
        cell = {}
        h = Houdini(re.compile(".*PeriodValue.*"), gen, after=after)
        h.variant = lambda *a: None      # termination of the search: the interval argument below is a separate obligation
        orig_enter = h.enter

        def enter(ex, st, hdr, phis):
            r = orig_enter(ex, st, hdr, phis)
            return r
        h.enter = enter

        def back(ex, st, hdr, phis, saved):
            Houdini.back(h, ex, st, hdr, phis, saved)
            head = saved[1]
            ints = [I for I in phis if z3.is_bv(phis[I]) and phis[I].size() == 64]
            if not ex.infer:
                w = lambda d: [d[I] for I in ints]
                alt = []
                for I in ints:
                    for J in ints:
                        if I is not J: alt.append(z3.And(z3.ULE(phis[I], phis[J]), z3.ULT(phis[J] - phis[I], head[J] - head[I])))
                    alt.append(z3.And(z3.ULT(head[I], phis[I]), z3.ULE(phis[I], st.ghost["hi"] - st.ghost["lo"])))
                ex.oblige(st, "the search interval shrinks", z3.Or(alt) if alt else F, "termination", hdr.insts[-1].line)
        h.back = back

        def make():
            p = cell["p"] = P(v, c, bits, lock, "sum_and_counts")
            p.role = "query"
            ex = p.ex
            h.attach(ex)
            st = State()
            oid = p.start(st)
            t = ex.fresh("t")
            p.at = t
            if explicit: st.assume(t != 0, t >= p.last, t <= T0)
            else: st.assume(t == 0)
            v.cover(ex, st)

            def ret(s, r):
                cur = p.cur(s)
                exp = cur - z3.SignExt(32, p.period)
                lo, hi = s.ghost["lo"], s.ghost["hi"]
                if lock: ex.oblige(s, "the lock is released", T if not s.ghost["held"] else F, "lock")
                if isinstance(r, tuple): sm, cn = r[0], r[1]
                else: sm, cn = z3.Extract(bits - 1, 0, r), z3.Extract(bits + 31, bits, r)
                ex.oblige(s, "no sample is added by a query", hi == p.hi0, "frame")
                k = ex.fresh("kept")
                s.assume(z3.ULE(lo, k), z3.ULT(k, hi))
                p.use(s, k)
                ex.oblige(s, "every sample that is kept lies in the window", TS(k) >= exp, "postcondition")
            def ret2(s, r):
                cur = p.cur(s)
                lo, hi = s.ghost["lo"], s.ghost["hi"]
                if isinstance(r, tuple): sm, cn = r[0], r[1]
                else: sm, cn = z3.Extract(bits - 1, 0, r), z3.Extract(bits + 31, bits, r)
                ex.oblige(s, "the count is exactly the number of samples in the window", z3.SignExt(32, cn) == hi - lo, "postcondition")
                ex.oblige(s, "the sum is exactly the sum of the samples in the window", sm == p.SUM(hi) - p.SUM(lo), "postcondition")
                ret(s, r)
            return ex, lambda: ex.run(st, fns(p.cls, "sum_and_counts"), [Ptr(oid), t], ret2)
        h.solve(make)
    return body


def t_push(c, bits, lock, explicit):
    def body(v):
        p = P(v, c, bits, lock, "push")
        p.role = "push"
        ex = p.ex
        st = State()
        oid = p.start(st)
        t, val = ex.fresh("t"), ex.fresh("value", bits)
        p.at = t
        if explicit: st.assume(t != 0, t >= p.last, t <= T0)
        else: st.assume(t == 0)
        a = ex.new_reg(st, "value", "cells", bits // 8)
        ex.store_cell(st, a.id, 0, bits // 8, val)
        v.cover(ex, st)

        def ret(s, r):
            if lock: ex.oblige(s, "the lock is released", T if not s.ghost["held"] else F, "lock")
            ps = [x for x in s.trace if x[0] == "push"]
            ex.oblige(s, "exactly one sample is recorded", T if len(ps) == 1 else F, "postcondition")
            for x in ps: ex.oblige(s, "the sample is the given value at the given (or current) time", z3.And(x[1] == p.cur(s), x[2] == val), "postcondition")
            ex.oblige(s, "the new sample is kept", z3.ULT(s.ghost["lo"], s.ghost["hi"]), "postcondition")
        ex.run(st, fns(p.cls, "push"), [Ptr(oid), Ptr(a.id), t], ret)
    return body


def t_ctor(c, bits, lock):
    def body(v):
        p = P(v, c, bits, lock, "PeriodValue")
        p.role = "ctor"
        ex = p.ex
        st = State()
        o = ex.new_reg(st, "pv", "cells", 4096)
        per = ex.fresh("period", 32)

        def ret(s, r):
            ex.oblige(s, "the period is the one given", ex.load(s, Ptr(o.id, p.off["m_time_period"]), _IntTy(32)) == per, "postcondition")
            q = [t for t in s.trace if t[0] == "queue"]
            ex.oblige(s, "the sample queue grows (samples are never dropped by a full queue)", q[0][2] == 0 if len(q) == 1 else F, "postcondition")
            if lock: ex.oblige(s, "a mutex is created", T if len([t for t in s.trace if t[0] == "create"]) == 1 else F, "resource")
            g = ex.run(s, fns(p.cls, "get_time_period"), [Ptr(o.id)], lambda u, x: ex.oblige(u, "the reported period is the one given", x == per, "postcondition"))
        ex.run(st, fns(p.cls, "PeriodValue"), [Ptr(o.id), per], ret)
    return body


def t_total(c, bits, lock):
    def body(v):
        p = P(v, c, bits, lock, "total_counts")
        p.role, p.unlocked_size = "total", True
        st = State()
        oid = p.start(st)
        p.ex.run(st, fns(p.cls, "total_counts"), [Ptr(oid)], lambda s, r: p.ex.oblige(s, "total_counts is the number of samples kept", r == p.hi0 - p.lo0, "postcondition"))
    return body


# ---------------------------------------------------------------- min/max
def mmoff(c):
    cls = lkey("MinMaxValue", c)
    return {f: L.off(cls, f, ["m_min", "m_max"]) for f in ("m_min", "m_max")}, L.sizeof(cls)


def t_update(c, bits, signed):
    def body(v):
        off, size = mmoff(c)
        le = (lambda a, b: a <= b) if signed else z3.ULE
        loop = rg.StatusLoop([], lambda ex, st: None, None)

        def make():
            ex = v.exec(M, f"MinMaxValue<{c}>::update")
            libc.install(ex)
            ex.on(r"^std::operator&\(std::memory_order, std::__memory_order_modifier\)$", lambda ex, st, a, I: a[0] & a[1])
            st = State()
            o = ex.new_reg(st, "minmax", "cells", size)
            st.ghost.update(mn=ex.fresh("min", bits), mx=ex.fresh("max", bits))
            val = ex.fresh("value", bits)

            def env(ex, st):
                mn, mx = ex.fresh("min", bits), ex.fresh("max", bits)
                st.assume(le(mn, st.ghost["mn"]), le(st.ghost["mx"], mx))
                st.ghost.update(mn=mn, mx=mx)

            def which(p):
                for f, g in (("m_min", "mn"), ("m_max", "mx")):
                    if p.off == off[f]: return g
                raise Unsupported("unknown field")

            def read(ex, st, p, ty, line): return st.ghost[which(p)]

            def write(ex, st, p, w, n, line):
                g = which(p)
                nm = "minimum" if g == "mn" else "maximum"
                ex.oblige(st, f"the {nm} is replaced atomically with the value it was compared with (no update is lost)", T if ex.rmw is not None else F, "guarantee", line)
                ex.oblige(st, f"the {nm} never moves back", le(w, st.ghost[g]) if g == "mn" else le(st.ghost[g], w), "guarantee", line)
                ex.oblige(st, f"the {nm} is a recorded value", z3.Or(w == val, w == st.ghost[g]), "guarantee", line)
                st.ghost[g] = w
            rg.attach(ex, rg.Shared(ex, [o.id], env, read, write))
            loop.env = env
            ex.loop_specs.append((re.compile(".*"), None, loop))
            a = ex.new_reg(st, "value", "cells", bits // 8)
            ex.store_cell(st, a.id, 0, bits // 8, val)
            v.cover(ex, st)

            def ret(s, r):
                ex.oblige(s, "after update the maximum is at least the recorded value", le(val, s.ghost["mx"]), "postcondition")
                ex.oblige(s, "after update the minimum is at most the recorded value", le(s.ghost["mn"], val), "postcondition")
            return ex, lambda: ex.run(st, fns(f"cyclone::MinMaxValue<{c}>", "update"), [Ptr(o.id), Ptr(a.id)], ret)
        rg.solve(make)
    return body


def t_mmget(c, bits, signed):
    def body(v):
        off, size = mmoff(c)
        ex = v.exec(M, f"MinMaxValue<{c}>")
        libc.install(ex)
        ex.on(r"^std::operator&\(std::memory_order, std::__memory_order_modifier\)$", lambda ex, st, a, I: a[0] & a[1])
        st = State()
        o = ex.new_reg(st, "minmax", "cells", size)
        mn, mx = ex.fresh("min", bits), ex.fresh("max", bits)
        ex.store_cell(st, o.id, off["m_min"], bits // 8, mn)
        ex.store_cell(st, o.id, off["m_max"], bits // 8, mx)
        cls = f"cyclone::MinMaxValue<{c}>"
        ex.run(st.clone(), fns(cls, "min"), [Ptr(o.id)], lambda s, r: ex.oblige(s, "min() reports the minimum", r == mn, "postcondition"))
        ex.run(st.clone(), fns(cls, "max"), [Ptr(o.id)], lambda s, r: ex.oblige(s, "max() reports the maximum", r == mx, "postcondition"))
        big = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
        low = -(1 << (bits - 1)) if signed else 0
        G = lambda s, f: ex.load(s, Ptr(o.id, off[f]), _IntTy(bits))
        ex.run(st.clone(), fns(cls, "MinMaxValue").replace("zz", "z") if False else [d for d in M.bydem if d == cls + "::MinMaxValue()"][0], [Ptr(o.id)],
               lambda s, r: ex.oblige(s, "a new tracker accepts any first value as its minimum and maximum", z3.And(G(s, "m_min") == bv(big, bits), G(s, "m_max") == bv(low, bits)), "postcondition"))
        a = ex.new_reg(st, "init", "cells", bits // 8)
        iv = ex.fresh("init", bits)
        ex.store_cell(st, a.id, 0, bits // 8, iv)
        ex.run(st.clone(), [d for d in M.bydem if d.startswith(cls + "::MinMaxValue(" + c)][0], [Ptr(o.id), Ptr(a.id)],
               lambda s, r: ex.oblige(s, "a tracker with an initial value has it as minimum and maximum", z3.And(G(s, "m_min") == iv, G(s, "m_max") == iv), "postcondition"))
    return body


def t_mmfloat(v):
    import struct
    for c, n, lo in (("float", 4, -3.4028234663852886e38), ("double", 8, -1.7976931348623157e308)):
        off, size = mmoff(c)
        ex = v.exec(M, f"MinMaxValue<{c}>")
        libc.install(ex)
        ex.on(r"^std::operator&\(std::memory_order, std::__memory_order_modifier\)$", lambda ex, st, a, I: a[0] & a[1])
        st = State()
        o = ex.new_reg(st, "minmax", "cells", size)
        bits = lambda x: int.from_bytes(struct.pack("<f" if n == 4 else "<d", x), "little")

        def ret(s, r):
            for f, want in (("m_max", lo), ("m_min", -lo)):
                x = ex.load(s, Ptr(o.id, off[f]), _IntTy(8 * n))
                if z3.is_fp(x): x = z3.fpToIEEEBV(x)
                ex.oblige(s, f"{f} of a new floating point tracker accepts any first value", x == bits(want), "postcondition")
        ex.run(st, [d for d in M.bydem if d == f"cyclone::MinMaxValue<{c}>::MinMaxValue()"][0], [Ptr(o.id)], ret)


def tasks(tier):
    t = []
    for c, bits, lock, _ in PV:
        for e in (True, False):
            w = "explicit time" if e else "clock"
            t += [(f"PeriodValue<{c}>::sum_and_counts ({w})", t_query(c, bits, lock, e)), (f"PeriodValue<{c}>::push ({w})", t_push(c, bits, lock, e))]
        t += [(f"PeriodValue<{c}>::PeriodValue", t_ctor(c, bits, lock)), (f"PeriodValue<{c}>::total_counts", t_total(c, bits, lock))]
    for c, bits, sg, _ in MM: t += [(f"MinMaxValue<{c}>::update", t_update(c, bits, sg)), (f"MinMaxValue<{c}> min/max/constructors", t_mmget(c, bits, sg))]
    return t + [("MinMaxValue<float/double> constructors", t_mmfloat)]


def replay(failed, errors, seed, tier):
    b = bld.scheduled("stat", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "stat_harness.cpp"))
    return nat.confirm(b, [], [], seed, 40 if tier == "quick" else 400)
