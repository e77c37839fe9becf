"""C04  ring queue keeps FIFO order in fixed and auto-growing mode"""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.loops import Houdini
from . import rq, stl
from .rq import *

M = L = None
LAYS = {}
TRUSTED = libc.TRUST_TEXT + stl.TRUST
ASSUMPTIONS = ["queues hold at most 2^50 elements", "the pushed value does not live inside the queue's own storage",
               "the template is verified at T = uint64_t and T = std::pair<int64_t,int32_t> (elements are only copied, never inspected)",
               "walk callbacks do not modify the queue; a pop count is at most 2^62"]


def build():
    global M, L
    M, L = bld.module([], text=rq.TEXT)
    for t in TYPES: LAYS[t] = QLay(L, t)


def houdini(name, ghosts=()):
    def gen(ex, st, hdr, phis):
        out = []
        g = st.ghost
        v, rid, lay = g["v0"], g["rid"], g["lay"]
        e, r, w = g["erw"]
        ints = [p for p in phis if z3.is_bv(phis[p]) and phis[p].size() == 64]
        cnts = [p for p in ints if p.op == "ghost"]
        for p in ints:
            out += [(f"{p.name} < ring size", lambda x, p=p: z3.ULT(x[p], e)),
                    (f"{p.name} <= size", lambda x, p=p: z3.ULE(x[p], v.size)), (f"{p.name} < size", lambda x, p=p: z3.ULT(x[p], v.size)),
                    (f"{p.name} <= 2^62", lambda x, p=p: z3.ULE(x[p], bv(1 << 62))), (f"{p.name} >= 1", lambda x, p=p: z3.ULE(bv(1), x[p])),
                    (f"{p.name} <= 2 ring sizes", lambda x, p=p: z3.ULE(x[p], e + e)), (f"{p.name} is a power of two", lambda x, p=p: pow2(x[p]))]
            for c in ints:
                if c is p: continue
                at = lambda x, b, k: z3.If(z3.ULT(b + k, e), b + k, b + k - e)
                out += [(f"{p.name} = read + {c.name} (wrapped)", lambda x, p=p, c=c: x[p] == at(x, r, x[c])),
                        (f"{p.name} = write - {c.name} (wrapped)", lambda x, p=p, c=c: x[p] == z3.If(z3.UGE(w, x[c]), w - x[c], w + e - x[c])),
                        (f"{p.name} = {c.name}", lambda x, p=p, c=c: x[p] == x[c]),
                        (f"{p.name} + {c.name} = size", lambda x, p=p, c=c: x[p] + x[c] == v.size),
                        (f"{p.name} + {c.name} = size - 1", lambda x, p=p, c=c: x[p] + x[c] == v.size - 1)]
        for p in phis:
            if z3.is_bool(phis[p]): out.append((f"not {p.name}", lambda x, p=p: z3.Not(x[p])))
        return out

    def after(ex, st, hdr, phis, kept):
        e = st.ghost["erw"][0]
        for p in phis:
            if z3.is_bv(phis[p]) and phis[p].size() == 64:
                # two distinct powers of two differ by a factor of at least two (lemma below)
                st.assume(z3.Implies(z3.And(pow2(phis[p]), pow2(e), z3.ULT(e, phis[p])), z3.And(z3.ULE(e + e, phis[p]))))
    return Houdini(re.compile(r"^cyclone::RingQueue<.*>::"), gen, after, ghosts=ghosts)


def contract(T_, fname, fixed, argf, post, extra=None, ghosts=(), loops=False, cov=True):
    """fixed: True / False; argf(ex, st, ctx) -> argument list; post(ex, s, r, ctx)"""
    def body(v):
        lay = LAYS[T_]
        H = houdini(fname, ghosts)

        def make_():
            ex = v.exec(M, f"RingQueue<{T_}>::{fname} ({'fixed' if fixed else 'growing'})", max_unroll=64)
            libc.install(ex)
            stl.install_vector(ex, lay.flds, lay.stride)
            if loops: H.attach(ex)
            st = State()
            pow2_facts(ex, st)
            rid = make(ex, st, lay, fixed)
            v0 = view(ex, st, lay, rid)
            e, r, w = fields(ex, st, lay, rid)
            st.ghost.update(v0=v0, rid=rid, lay=lay, erw=(e, r, w))
            st.assume(z3.ULE(v0.cap, bv(MAXN // 4)))
            ctx = dict(lay=lay, rid=rid, v0=v0, fixed=fixed)
            args = argf(ex, st, ctx)
            if extra: extra(ex, st, ctx)
            ex.small = [z3.ULE(e, bv(33)), z3.ULE(e, bv(5))]

            def cex(s, m):
                n = lambda t: m.eval(t, model_completion=True).as_long()
                d = {"op": fname, "fixed": int(fixed), "end": n(e), "read": n(r), "write": n(w)}
                for k in ("counts", "index"):
                    if k in ctx: d[k] = n(ctx[k])
                return d
            ex.cexfn = cex
            v.res.covers or v.cover(ex, st)

            def ret(s, res):
                check_inv(ex, s, lay, rid, fixed)
                post(ex, s, res, ctx)
            return ex, lambda: ex.run(st, sig(M, lay, fname), [Ptr(rid)] + args, ret)
        if loops: H.solve(make_)
        else:
            ex, run = make_()
            run()
    return body


def same(ex, s, ctx, want, tag=""):
    lay, rid = ctx["lay"], ctx["rid"]
    got = view(ex, s, lay, rid)
    ex.oblige(s, f"number of elements afterwards is exact{tag}", got.size == want.size, "postcondition")
    i = ex.fresh("i")
    ex.oblige(s, f"every element afterwards is exact, in order{tag}", z3.Implies(z3.ULT(i, want.size), eqrec(got.sel(i), want.sel(i))), "postcondition")
    return got


def val_arg(ex, st, ctx):
    lay = ctx["lay"]
    r = ex.new_reg(st, "value", "cells", lay.stride)
    r.const = True
    ctx["val"] = read_rec(ex, st, lay, Ptr(r.id))
    return [Ptr(r.id)]


def p_push(ex, s, r, ctx):
    v0, fixed = ctx["v0"], ctx["fixed"]
    if fixed:
        full = v0.size == v0.cap
        n = z3.If(full, v0.size, v0.size + 1)
        shift = z3.If(full, bv(1), bv(0))
        want = QV(n, lambda i: merge(i == n - 1, ctx["val"], v0.sel(z3.simplify(i + shift))))
    else: want = append(v0, ctx["val"])
    got = same(ex, s, ctx, want)
    if fixed: ex.oblige(s, "a fixed queue keeps its capacity", got.cap == v0.cap, "postcondition")
    else: ex.oblige(s, "capacity never shrinks", z3.UGE(got.cap, v0.cap), "postcondition")


def p_pop(ex, s, r, ctx):
    v0 = ctx["v0"]
    n = z3.If(z3.ULE(ctx["counts"], v0.size), ctx["counts"], v0.size)
    got = same(ex, s, ctx, drop(v0, n))
    ex.oblige(s, "capacity unchanged", got.cap == v0.cap, "postcondition")


def a_int(name, lim=1 << 62):
    def f(ex, st, ctx):
        ctx[name] = ex.fresh(name)
        st.assume(z3.ULE(ctx[name], bv(lim)))
        return [ctx[name]]
    return f


def p_query(what, term):
    def f(ex, s, r, ctx):
        ex.oblige(s, f"{what} is exact", r == term(ctx["v0"]), "postcondition")
        same(ex, s, ctx, ctx["v0"])
    return f


def p_elem(what, idx):
    def f(ex, s, r, ctx):
        v0 = ctx["v0"]
        ex.oblige(s, f"{what} refers to exactly that element", eqrec(read_rec(ex, s, ctx["lay"], r), v0.sel(idx(v0, ctx))), "postcondition")
        same(ex, s, ctx, v0)
    return f


def nonempty(ex, st, ctx): st.assume(ctx["v0"].size != 0)
def in_range(ex, st, ctx): st.assume(z3.ULT(ctx["index"], ctx["v0"].size))


def walker(rev):
    def setup(ex, st, ctx):
        st.ghost["visited"] = bv(0)
        st.ghost["stopped"] = z3.BoolVal(False)
        isnull = ex.fresh("no_callback", 1)
        ctx["isnull"] = isnull
        v0 = ctx["v0"]

        def eqnull(ex, st, a, I): return isnull
        ex.on(r"^bool std::operator(==|!=)<.*>\(std::function<.*decltype\(nullptr\)\)$", lambda ex, st, a, I: isnull if "operator==" in ex.m.dem[I.extra.val] else z3.Not(isnull))
        ex.on(r"^std::function<.*>::operator bool\(\) const$", lambda ex, st, a, I: z3.Not(isnull))

        def call(ex, st, a, I):
            k = st.ghost["visited"]
            ex.oblige(st, "an empty callback is never called", z3.Not(isnull), "callee precondition", I.line)
            ex.oblige(st, "no further element is visited after the callback asked to stop", z3.Not(st.ghost["stopped"]), "postcondition", I.line)
            ex.oblige(st, "no more elements are visited than there are", z3.ULT(k, v0.size), "postcondition", I.line)
            idx = z3.simplify(v0.size - 1 - k) if rev else k
            ex.oblige(st, "the callback gets the element's index", a[1] == idx, "postcondition", I.line)
            ex.oblige(st, "the callback gets the element itself", eqrec(read_rec(ex, st, ctx["lay"], a[2]), v0.sel(idx)), "postcondition", I.line)
            st.ghost["visited"] = z3.simplify(k + 1)
            s2 = st.clone()
            s2.ghost["stopped"] = z3.BoolVal(True)
            return Alts([(st, T), (s2, F)])
        call.label = "std::function::operator() (walk callback)"
        ex.on(r"^std::function<bool \(unsigned long, .*>::operator\(\)\(", call)

    def post(ex, s, r, ctx):
        k, v0 = s.ghost["visited"], ctx["v0"]
        ex.oblige(s, "every element was visited unless the callback asked to stop", z3.Or(ctx["isnull"], s.ghost["stopped"], k == v0.size), "postcondition")
        same(ex, s, ctx, v0)
    return setup, post


def t_ctor(T_, fixed):
    def body(v):
        lay = LAYS[T_]
        ex = v.exec(M, f"RingQueue<{T_}>::RingQueue ({'fixed' if fixed else 'growing'})")
        libc.install(ex)
        stl.install_vector(ex, lay.flds, lay.stride)
        st = State()
        pow2_facts(ex, st)
        o = ex.new_reg(st, "q", "cells", lay.size)
        n = ex.fresh("capacity")
        st.assume(z3.ULE(n, bv(MAXN // 2)), (n != 0) if fixed else (n == 0))
        ex.small = [z3.ULE(n, bv(40))]
        ex.cexfn = lambda s, m: {"op": "ctor", "fixed": int(fixed), "end": m.eval(n, model_completion=True).as_long() + 1, "read": 0, "write": 0}
        v.cover(ex, st)

        def ret(s, r):
            check_inv(ex, s, lay, o.id, fixed)
            got = view(ex, s, lay, o.id)
            ex.oblige(s, "a new queue is empty", got.size == 0, "postcondition")
            if fixed: ex.oblige(s, "a fixed queue has the requested capacity", got.cap == n, "postcondition")
        ex.run(st, sig(M, lay, "RingQueue"), [Ptr(o.id), n], ret)
    return body


def t_pow2(v):
    x, y = z3.BitVecs("x y", 64)
    p = lambda a: z3.And(a != 0, a & (a - 1) == 0)
    lim = z3.And(z3.ULE(x, bv(1 << 62)), z3.ULE(y, bv(1 << 62)))
    v.lemma("a larger power of two is at least twice as large", [p(x), p(y), z3.ULT(x, y), lim], z3.ULE(x + x, y))
    v.lemma("doubling keeps a power of two", [p(x), lim], p(x * 2))
    v.lemma("1, 2 and 32 are powers of two", [], z3.And(p(bv(1)), p(bv(2)), p(bv(32))))


def tasks(tier):
    ts = [("lemma: powers of two", t_pow2)]
    for t in TYPES:
        for fx in (True, False):
            nm = lambda f: f"RingQueue<{t}>::{f} ({'fixed' if fx else 'growing'})"
            def C(f, *a, **k): ts.append((nm(f), contract(t, f, fx, *a, **k)))
            ts.append((nm("RingQueue"), t_ctor(t, fx)))
            C("push", val_arg, p_push, loops=True)
            C("pop", a_int("counts"), p_pop)
            no = lambda ex, st, ctx: []
            C("size", no, p_query("size()", lambda v: v.size))
            C("capacity", no, p_query("capacity()", lambda v: v.cap))
            C("get_free_size", no, p_query("get_free_size()", lambda v: v.cap - v.size))
            C("empty", no, p_query("empty()", lambda v: v.size == 0))
            C("reset", no, lambda ex, s, r, ctx: same(ex, s, ctx, QV(bv(0), ctx["v0"].sel)))
            C("front", no, p_elem("front()", lambda v, c: bv(0)), extra=nonempty)
            C("back", no, p_elem("back()", lambda v, c: v.size - 1), extra=nonempty)
            C("get", a_int("index"), p_elem("get(index)", lambda v, c: c["index"]), extra=in_range)
            for rev, f in ((False, "walk"), (True, "walk_reserve")):
                su, po = walker(rev)
                C(f, lambda ex, st, ctx: [Ptr(ex.new_reg(st, "callback", "cells", 32).id)], po, extra=su, ghosts=("visited", "stopped"), loops=True)
    return ts


def replay(failed, errors, seed, tier):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = bld.native("rq", os.path.join(root, "harness/rq_harness.cpp"), [], flags=nat.ASAN)
    return nat.confirm(h, [], [], seed, 15)


native_search = True
