"""C05  the lock-free queue delivers each accepted element exactly once, in order.

Rely-guarantee: ghost 64-bit counters r <= m <= w <= r + N-1 (popped, committed, reserved tickets) stand behind the three 32-bit indices.  Every atomic
step of push/pop is proved to be a step the other threads rely on; between any two steps the other threads take any number of such steps."""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy
from . import rg

M = L = None
SIZES = [2, 16, 65536]
WRAP = "#include <cy_core.h>\nusing namespace cyclone;\n" + "".join(f"template class cyclone::LockFreeQueue<uint64_t, {n}>;\ncyclone::LockFreeQueue<uint64_t, {n}>* dv_new_{n}(void* p) {{ return new (p) cyclone::LockFreeQueue<uint64_t, {n}>(); }}\n" for n in SIZES)
TRUSTED = libc.TRUST_TEXT + ["std::atomic operations are the hardware's (libstdc++'s inline code down to the atomic instruction is verified); other threads use the queue only through push, pop and size"]
ASSUMPTIONS = ["while one call is between two of its own steps, fewer than 2^32 operations are completed by other threads (the 32-bit counters are otherwise ambiguous, a limit of the algorithm)",
               "interleavings of sequentially consistent atomic steps; plus the release/acquire edges named in the obligations",
               "64-bit ghost tickets stay below 2^62", "the element type is a 64-bit integer; capacities 2, 16 and 65536"]
FIELDS = ["m_queue", "m_count", "m_writeIndex", "m_readIndex", "m_maximumReadIndex"]
VAL = z3.Function("val", z3.BitVecSort(64), z3.BitVecSort(64))
M32 = 0xffffffff


def build():
    global M, L
    M, L = bld.module([], text=WRAP)


def find(n, what):
    c = [d for d in M.bydem if re.match(rf"^(bool |unsigned int |void )?cyclone::LockFreeQueue<unsigned long, {n}u>::{what}\(", d)]
    if len(c) != 1: raise Unsupported(f"{len(c)} functions {what} of LockFreeQueue<{n}>")
    return c[0]


class Model:
    def __init__(self, v, n, fn, mode):
        """mode: 'mpmc' any threads, '1c' no other consumer, 'solo' no other thread"""
        self.n, self.mode, self.v = n, mode, v
        self.ex = ex = v.exec(M, f"{fn}<{n}> [{mode}]")
        libc.install(ex)
        ex.on(r"^(cyclone::sys_api::thread_yield\(\)|sched_yield|_mm_pause|std::this_thread::yield.*)$", lambda ex, st, a, I: None)
        ex.on(r"^std::operator&\(std::memory_order, std::__memory_order_modifier\)$", lambda ex, st, a, I: a[0] & a[1])
        cls = f"cyclone::LockFreeQueue<unsigned long, {n}>"
        self.off = {f: L.off(cls, f, FIELDS) for f in FIELDS}
        self.size = L.sizeof(cls)
        ex.weak_fails = mode != "solo"

    def start(self, st):
        ex = self.ex
        q = ex.new_reg(st, "queue", "cells", self.size)
        self.q = q.id
        r, m, w = (ex.fresh(x) for x in ("r", "m", "w"))
        c = ex.fresh("count", 32)
        st.assume(self.inv(r, m, w))
        if self.mode == "solo": st.assume(m == w, z3.ZeroExt(32, c) == w - r)
        st.ghost.update(r=r, m=m, w=w, count=c, delta=0, mine=None, written=None, committed=False, taken=None, snaps=(), full=(), emptyish=(), acq={})
        self.r0, self.m0, self.w0, self.c0 = r, m, w, c
        sh = rg.Shared(ex, [self.q], self.env, self.read, self.write)
        rg.attach(ex, sh)
        return q.id

    def inv(self, r, m, w):
        return z3.And(z3.ULE(r, m), z3.ULE(m, w), z3.ULE(w - r, self.n - 1), z3.ULT(w, 1 << 62))

    def env(self, ex, st):
        """other threads take any number of steps"""
        g = st.ghost
        if self.mode != "solo":
            r, m, w = (ex.fresh(x) for x in ("r", "m", "w"))
            st.assume(self.inv(r, m, w), z3.ULE(g["r"], r), z3.ULE(g["m"], m), z3.ULE(g["w"], w))
            if self.mode == "1c": st.assume(r == g["r"])
            if g["mine"] is not None and not g["committed"]: st.assume(z3.ULE(m, g["mine"]))
            for f, t in g["snaps"]: st.assume(z3.ULT({"r": r, "m": m, "w": w}[f] - t, 1 << 32))
            g.update(r=r, m=m, w=w, count=ex.fresh("count", 32))
        g["full"] = g["full"] + (g["w"] - g["r"] == self.n - 1,)
        g["emptyish"] = g["emptyish"] + (g["m"] == g["r"],)

    def field(self, p):
        if isinstance(p.off, int):
            for f in FIELDS[1:]:
                if self.off[f] == p.off: return f
        return None

    def slot(self, ex, st, p):
        """the slot number of an array access"""
        d = add64(p.off, -self.off["m_queue"])
        i = z3.simplify(z3.LShR(b64(d), 3))
        if not ex.valid(st, z3.And(z3.ULT(b64(d), 8 * self.n), b64(d) & 7 == 0)): raise Unsupported("access outside the known fields of the queue")
        return i

    def ticket(self, g, i):
        """the ticket in [r, r+N) that lives in slot i"""
        return g["r"] + ((i - g["r"]) & (self.n - 1))

    def read(self, ex, st, p, ty, line):
        g = st.ghost
        f = self.field(p)
        if f:
            if ty.size != 4: raise Unsupported("index access of unexpected width")
            order = (ex.rmw or ex.cur).order
            if f == "m_count": return g["count"]
            k = {"m_writeIndex": "w", "m_readIndex": "r", "m_maximumReadIndex": "m"}[f]
            if ex.rmw is None:
                g["snaps"] = g["snaps"] + ((k, g[k]),)
                g["acq"] = {**g.get("acq", {}), k: g.get("acq", {}).get(k, True) and order in (ACQ_OK)}
            return z3.simplify(z3.Extract(31, 0, g[k]))
        if ty.size != 8: raise Unsupported("partial element access")
        i = self.slot(ex, st, p)
        k = self.ticket(g, i)
        d = ex.fresh("slotdata")
        st.assume(z3.Implies(z3.ULT(k, g["m"]), d == VAL(k)))
        if g["mine"] is not None and g["written"] is not None and not g["committed"]: st.assume(z3.Implies(k == g["mine"], d == g["written"]))
        return d

    def write(self, ex, st, p, v, size, line):
        g = st.ghost
        f = self.field(p)
        rmw = ex.rmw
        if f:
            if size != 4: raise Unsupported("index access of unexpected width")
            low = lambda t: z3.Extract(31, 0, t)
            if f == "m_count":
                if v.__class__ is int: v = bv(v, 32)
                if rmw is None:
                    ex.oblige(st, "the element count is changed by an atomic read-modify-write", F, "guarantee", line)
                    raise PathEnd()
                up = ex.valid(st, v == g["count"] + 1)
                ex.oblige(st, "the element count changes by one", z3.Or(v == g["count"] + 1, v == g["count"] - 1), "guarantee", line)
                g["delta"] += 1 if up else -1
                g["count"] = v
                return
            if rmw is None and self.mode != "solo":
                # a plain store is a step only if the thread owns the counter
                own = f == "m_maximumReadIndex" and g["mine"] is not None and not g["committed"]
                ex.oblige(st, f"{f} is advanced atomically", g["m"] == g["mine"] if own else F, "guarantee", line)
            order = ex.cur.order
            if f == "m_writeIndex":
                ex.oblige(st, "reserving advances the write index by exactly one", v == low(g["w"]) + 1, "guarantee", line)
                ex.oblige(st, "a slot is reserved only while the queue has room", z3.ULT(g["w"] - g["r"], self.n - 1), "guarantee", line)
                ex.oblige(st, "one reservation per push", T if g["mine"] is None else F, "guarantee", line)
                ex.oblige(st, "the reservation is based on an acquire read of the read index", T if g.get("acq", {}).get("r", True) else F, "memory order", line)
                g["mine"] = g["w"]
                g["w"] = z3.simplify(g["w"] + 1)
            elif f == "m_maximumReadIndex":
                ok = g["mine"] is not None and not g["committed"]
                ex.oblige(st, "only a thread with an uncommitted reservation commits", T if ok else F, "guarantee", line)
                if not ok: raise PathEnd()
                ex.oblige(st, "commits happen in reservation order", g["m"] == g["mine"], "guarantee", line)
                ex.oblige(st, "committing advances the commit index by exactly one", v == low(g["m"]) + 1, "guarantee", line)
                ex.oblige(st, "the slot holds the pushed element when it is committed", g["written"] == self.data if g["written"] is not None else F, "guarantee", line)
                ex.oblige(st, "the commit is a release step", T if order in (rg.REL, rg.ACQREL, rg.SEQ) else F, "memory order", line)
                st.assume(VAL(g["mine"]) == g["written"]) if g["written"] is not None else None
                g["m"] = z3.simplify(g["m"] + 1)
                g["committed"] = True
            else:
                ex.oblige(st, "popping advances the read index by exactly one", v == low(g["r"]) + 1, "guarantee", line)
                ex.oblige(st, "only a committed element is popped", z3.ULT(g["r"], g["m"]), "guarantee", line)
                ex.oblige(st, "one element per pop", T if g["taken"] is None else F, "guarantee", line)
                ex.oblige(st, "the pop is a release step", T if order in (rg.REL, rg.ACQREL, rg.SEQ) else F, "memory order", line)
                ex.oblige(st, "the element is read after an acquire read of the commit index", T if g.get("acq", {}).get("m", True) else F, "memory order", line)
                g["taken"] = g["r"]
                g["r"] = z3.simplify(g["r"] + 1)
            return
        if size != 8: raise Unsupported("partial element access")
        i = self.slot(ex, st, p)
        ok = g["mine"] is not None and not g["committed"]
        ex.oblige(st, "an element is written only into a slot reserved by this push and not yet committed", self.ticket(g, i) == g["mine"] if ok else F, "guarantee", line)
        if not ok: raise PathEnd()
        g["written"] = v

    def reset(self, ex, st):
        st.ghost.update(snaps=(), full=(), emptyish=(), acq={})


ACQ_OK = (rg.ACQ, rg.ACQREL, rg.SEQ)


def t_push(n, mode):
    def body(v):
        spec = rg.StatusLoop(["mine", "written", "committed", "taken", "delta"], None, None)

        def make():
            m = Model(v, n, "push", mode)
            ex = m.ex
            spec.reset, spec.env = m.reset, m.env
            if mode == "solo": ex.max_unroll = 4
            else: ex.loop_specs.append((re.compile(".*"), None, spec))
            st = State()
            qid = m.start(st)
            d = ex.new_reg(st, "data", "cells", 8)
            m.data = ex.fresh("data")
            ex.store_cell(st, d.id, 0, 8, m.data)
            v.cover(ex, st)
            names = {"r": m.r0, "m": m.m0, "w": m.w0}
            ex.cexfn = lambda s, mo: {"n": n, **{k: mo.eval(t, model_completion=True).as_long() for k, t in names.items()}}

            def ret(s, r):
                g = s.ghost
                r = ex.boolval(r)
                done = g["mine"] is not None and g["committed"]
                ex.oblige(s, "push reports success exactly when its element was reserved, written and committed", r == (T if done else F), "postcondition")
                ex.oblige(s, "a failing push leaves the queue unchanged", T if done or (g["mine"] is None and g["written"] is None) else F, "postcondition")
                ex.oblige(s, "a successful push counts its element once, a failing push counts nothing", T if g["delta"] == (1 if done else 0) else F, "postcondition")
                ex.oblige(s, "push removes nothing", T if g["taken"] is None else F, "postcondition")
                if mode == "solo":
                    ex.oblige(s, "an undisturbed push succeeds exactly when there is room", r == z3.ULT(m.w0 - m.r0, n - 1), "postcondition")
                    ex.oblige(s, "an undisturbed push leaves the count equal to the number of elements", z3.ZeroExt(32, g["count"]) == g["w"] - g["r"], "postcondition")
                    ex.oblige(s, "an undisturbed push appends exactly one element", z3.And(g["r"] == m.r0, g["m"] == g["w"], g["w"] == m.w0 + z3.If(r, bv(1), bv(0))), "postcondition")
                ex.oblige(s, "push does not change its argument", ex.load(s, Ptr(d.id), _IntTy(64)) == m.data, "frame")
            return ex, lambda: ex.run(st, find(n, "push"), [Ptr(qid), Ptr(d.id)], ret)
        rg.solve(make)
    return body


def t_pop(n, mode):
    def body(v):
        spec = rg.StatusLoop(["mine", "written", "committed", "taken", "delta"], None, None)

        def make():
            m = Model(v, n, "pop", mode)
            ex = m.ex
            spec.reset, spec.env = m.reset, m.env
            if mode == "solo": ex.max_unroll = 4
            else: ex.loop_specs.append((re.compile(".*"), None, spec))
            st = State()
            qid = m.start(st)
            d = ex.new_reg(st, "out", "cells", 8)
            o0 = ex.fresh("out0")
            ex.store_cell(st, d.id, 0, 8, o0)
            m.data = None
            v.cover(ex, st)

            def ret(s, r):
                g = s.ghost
                r = ex.boolval(r)
                out = ex.load(s, Ptr(d.id), _IntTy(64))
                ex.oblige(s, "pop reports success exactly when it took an element", r == (T if g["taken"] is not None else F), "postcondition")
                if g["taken"] is not None: ex.oblige(s, "pop returns the value that was pushed under the ticket it took", out == VAL(g["taken"]), "postcondition")
                ex.oblige(s, "a successful pop uncounts its element once, a failing pop counts nothing", T if g["delta"] == (-1 if g["taken"] is not None else 0) else F, "postcondition")
                ex.oblige(s, "pop reserves and writes nothing", T if g["mine"] is None and g["written"] is None else F, "postcondition")
                if mode != "mpmc": ex.oblige(s, "without another consumer pop fails only if no element was committed at some instant of the call", z3.Or(r, *g["emptyish"]), "postcondition")
                if mode == "solo":
                    ex.oblige(s, "an undisturbed pop succeeds exactly when there is an element", r == z3.ULT(m.r0, m.m0), "postcondition")
                    ex.oblige(s, "an undisturbed pop takes exactly the oldest element", z3.And(g["m"] == m.m0, g["w"] == m.w0, g["r"] == m.r0 + z3.If(r, bv(1), bv(0))), "postcondition")
                    ex.oblige(s, "an undisturbed pop leaves the count equal to the number of elements", z3.ZeroExt(32, g["count"]) == g["w"] - g["r"], "postcondition")
                    ex.oblige(s, "an undisturbed failing pop leaves the output untouched", z3.Or(r, out == o0), "postcondition")
            return ex, lambda: ex.run(st, find(n, "pop"), [Ptr(qid), Ptr(d.id)], ret)
        rg.solve(make)
    return body


def t_size(n):
    def body(v):
        m = Model(v, n, "size", "solo")
        st = State()
        qid = m.start(st)
        m.ex.run(st, find(n, "size"), [Ptr(qid)], lambda s, r: m.ex.oblige(s, "size of a quiescent queue is its number of elements", z3.ZeroExt(32, r) == m.w0 - m.r0, "postcondition"))
    return body


def t_ctor(n):
    def body(v):
        ex = v.exec(M, f"LockFreeQueue<{n}>()")
        libc.install(ex)
        cls = f"cyclone::LockFreeQueue<unsigned long, {n}>"
        st = State()
        q = ex.new_reg(st, "queue", "cells", L.sizeof(cls))

        def ret(s, r):
            for f in FIELDS[1:]:
                ex.oblige(s, f"a new queue starts empty ({f} = 0)", ex.load(s, Ptr(q.id, L.off(cls, f, FIELDS)), _IntTy(32)) == 0, "postcondition")
        ex.run(st, [d for d in M.bydem if d.startswith(f"dv_new_{n}(")][0], [Ptr(q.id)], ret)
    return body


def t_lemmas(v):
    r, m, w, k, j, v2 = (z3.BitVec(x, 64) for x in "rmwkjx")
    for n in SIZES:
        inv = z3.And(z3.ULE(r, m), z3.ULE(m, w), z3.ULE(w - r, n - 1), z3.ULT(w, 1 << 62))
        v.lemma(f"<{n}> reserved-or-committed tickets occupy distinct slots (so a reserved slot is not one another thread may read or write)",
                [inv, z3.ULE(r, k), z3.ULT(k, w), z3.ULE(r, j), z3.ULT(j, w), k != j], (k & (n - 1)) != (j & (n - 1)))
        v.lemma(f"<{n}> the initial state satisfies the invariant", [r == 0, m == 0, w == 0], inv)
        for nm, g, post in (("reserve", z3.ULT(w - r, n - 1), (r, m, w + 1)), ("commit", z3.ULT(m, w), (r, m + 1, w)), ("take", z3.ULT(r, m), (r + 1, m, w))):
            a, b, c = post
            v.lemma(f"<{n}> a {nm} step preserves the invariant", [inv, g, z3.ULT(w, (1 << 62) - 1)], z3.And(z3.ULE(a, b), z3.ULE(b, c), z3.ULE(c - a, n - 1)))
        v.lemma(f"<{n}> the queue never holds more than its capacity minus one elements", [inv], z3.ULE(m - r, n - 1))
        v.lemma(f"<{n}> a committed element keeps its slot: no uncommitted ticket shares it", [inv, z3.ULE(r, k), z3.ULT(k, m), z3.ULE(m, j), z3.ULT(j, w)], (k & (n - 1)) != (j & (n - 1)))


def tasks(tier):
    t = []
    for n in SIZES:
        t += [(f"push<{n}> any threads", t_push(n, "mpmc")), (f"pop<{n}> any threads", t_pop(n, "mpmc")), (f"pop<{n}> single consumer", t_pop(n, "1c")),
              (f"push<{n}> undisturbed", t_push(n, "solo")), (f"pop<{n}> undisturbed", t_pop(n, "solo")), (f"size<{n}>", t_size(n)), (f"constructor<{n}>", t_ctor(n))]
    return t + [("tickets and slots", t_lemmas)]


def replay(failed, errors, seed, tier):
    b = bld.scheduled("lfq", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "lfq_harness.cpp"))
    return nat.confirm(b, [], [], seed, 60 if tier == "quick" else 600)
