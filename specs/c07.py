"""C07  Adler-32 equals its mathematical definition for every input and split"""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.loops import Houdini

P, NMAX = 65521, 5552
M = L = None
SRC = ["source/cyCrypt/crypt/cyr_adler32.cpp"]
TRUSTED = libc.TRUST_TEXT
ASSUMPTIONS = ["the starting value is a possible checksum value (both halves below 65521)", "lengths are at most 2^62 bytes"]
I = z3.BV2Int


def build():
    global M, L
    M, L = bld.module(SRC)


def fname():
    c = [d for d in M.bydem if d.startswith("cyclone::adler32(") and M.has(M.bydem[d])]
    if len(c) != 1: raise bld.BuildError("adler32 not found")
    return c[0]


def t_adler(v):
    hist = {}

    def gen(ex, st, hdr, phis):
        """candidates: every 32-bit local may be the first or the second running sum; every pointer into the input, 64-bit
        index or their sum may be the position; other locals may count down with it"""
        g = st.ghost
        buf, n, k0 = g["buf"], g["len"], g["k0"]
        SA, SB, MB = g["SA"], g["SB"], g["MB"]
        out = []
        ptrs = [p for p in phis if isinstance(phis[p], Ptr) and phis[p].r == buf]
        ints = [p for p in phis if z3.is_bv(phis[p])]
        pos = [(f"position of {p.name}", lambda e, p=p: b64(e[p].off)) for p in ptrs]
        for p in ints:
            w = phis[p].size()
            if w == 64:
                pos.append((f"index {p.name}", lambda e, p=p: e[p]))
            if w in (32, 64) and not ptrs:
                for off in g["outer"]:
                    pos.append((f"outer position + index {p.name}", lambda e, p=p, w=w, off=off: off + (e[p] if w == 64 else z3.ZeroExt(32, e[p]))))
        sums = [p for p in ints if phis[p].size() == 32] or ints
        for pn, k in pos:
            out.append((f"{pn} stays within the input", lambda e, k=k: z3.ULE(k(e), n)))
            out.append((f"{pn} did not go back", lambda e, k=k: z3.UGE(k(e), k0)))
            out.append((f"{pn} is at most a block past the last reduction", lambda e, k=k: z3.ULE(k(e) - k0, bv(NMAX))))
            for p in sums:
                pi = lambda e, p=p: I(e[p])
                out.append((f"{p.name} is the first sum at {pn}", lambda e, k=k, pi=pi: (SA(I(k(e))) - pi(e)) % P == 0))
                out.append((f"{p.name} is the second sum at {pn}", lambda e, k=k, pi=pi: (SB(I(k(e))) - pi(e)) % P == 0))
                d = lambda e, k=k: I(k(e)) - I(k0)
                out.append((f"{p.name} bounded like the first sum at {pn}", lambda e, d=d, pi=pi: pi(e) <= (P - 1) + 255 * d(e)))
                out.append((f"{p.name} bounded like the second sum at {pn}", lambda e, k=k, pi=pi: pi(e) <= MB(I(k0), I(k(e)))))
            for p in ints:
                w = phis[p].size()
                kv, pv = k(phis), phis[p]
                ext = (lambda x: x) if w == 64 else (lambda x: z3.ZeroExt(64 - w, x))
                for m in (1, 2, 4, 8, 16, 32, -1, -16):
                    # counts down (or up) in step with the position
                    out.append((f"{pn} + {m}*{p.name} is constant", lambda e, k=k, p=p, m=m, ext=ext, c=kv + bv(m) * ext(pv): k(e) + bv(m) * ext(e[p]) == c))
        for p in ints:
            out.append((f"{p.name} is reduced", lambda e, p=p: z3.ULT(e[p], bv(P, e[p].size()))))
            out.append((f"{p.name} is positive", lambda e, p=p: e[p] != 0))
            out.append((f"{p.name} does not grow", lambda e, p=p, c=phis[p]: z3.ULE(e[p], c)))
            out.append((f"{p.name} does not shrink", lambda e, p=p, c=phis[p]: z3.UGE(e[p], c)))
        return out

    def after(ex, st, hdr, phis, kept):
        g = st.ghost
        buf = g["buf"]
        # does the loop keep both sums reduced?  then its head is the new reduction point
        ptrs = [p for p in phis if isinstance(phis[p], Ptr) and phis[p].r == buf]
        ks = [(f"position of {p.name}", b64(phis[p].off)) for p in ptrs]
        ks += [(f"index {p.name}", phis[p]) for p in phis if z3.is_bv(phis[p]) and phis[p].size() == 64]
        for nm, k in ks:
            a = [x for x in kept if x.endswith(f"is the first sum at {nm}")]
            b = [x for x in kept if x.endswith(f"is the second sum at {nm}")]
            if any(x.split(" ")[0] + " is reduced" in kept for x in a) and any(x.split(" ")[0] + " is reduced" in kept for x in b):
                g["k0"] = k
                g["outer"] = (k,)
                break
        worst(st)

    def worst(st):
        """MB(s, i): the largest value the second sum can have at position i when both sums were reduced at position s"""
        g = st.ghost
        MB, k0 = g["MB"], I(g["k0"])
        st.assume(MB(k0, k0) == P - 1)

        def rec(i):
            j = I(i) - k0
            return z3.Implies(z3.And(j >= 0, j < NMAX), z3.And(MB(k0, I(i) + 1) == MB(k0, I(i)) + (P - 1) + 255 * (j + 1), MB(k0, I(i) + 1) <= (1 << 32) - 1))
        st.foralls.append((g["bytes"], rec))

    H = Houdini(re.compile(r"^cyclone::adler32\("), gen, after)

    def make():
        ex = v.exec(M, "adler32", max_unroll=20, timeout_ms=60000)
        libc.install(ex)
        H.attach(ex)
        st = State()
        n, a = ex.fresh("len"), ex.fresh("adler", 32)
        b = ex.new_reg(st, "buf", "bytes", n)
        b.const = True
        a0, b0 = I(z3.Extract(15, 0, a)), I(z3.Extract(31, 16, a))
        st.assume(z3.ULE(n, bv(1 << 62)), z3.ULT(z3.Extract(15, 0, a), bv(P, 16)), z3.ULT(z3.Extract(31, 16, a), bv(P, 16)))
        SA, SB = z3.Function("SA", z3.IntSort(), z3.IntSort()), z3.Function("SB", z3.IntSort(), z3.IntSort())
        st.assume(SA(z3.IntVal(0)) == a0, SB(z3.IntVal(0)) == b0)
        # definition of the running sums, instantiated at every byte that is read
        x = b.content.f
        st.foralls.append((b.content.name, lambda i: z3.And(SA(I(i) + 1) == SA(I(i)) + I(x(i)), SB(I(i) + 1) == SB(I(i)) + SA(I(i) + 1))))
        st.ghost.update(buf=b.id, len=n, k0=bv(0), SA=SA, SB=SB, outer=(), bytes=b.content.name,
                        MB=z3.Function("MB", z3.IntSort(), z3.IntSort(), z3.IntSort()))
        worst(st)
        ex.small = [z3.ULE(n, bv(40))]

        def cex(s, m):
            ln = m.eval(n, model_completion=True).as_long()
            if ln > 200000: ln = 200000 + ln % 16
            return {"len": ln, "adler": m.eval(a, model_completion=True).as_long(),
                    "data": [m.eval(x(bv(i)), model_completion=True).as_long() for i in range(min(ln, 64))]}
        ex.cexfn = cex
        v.res.covers or v.cover(ex, st)

        def ret(s, r):
            ex.oblige(s, "low half of the result is the first sum modulo 65521",
                      z3.And((SA(I(n)) - I(z3.Extract(15, 0, r))) % P == 0, z3.ULT(z3.Extract(15, 0, r), bv(P, 16))), "postcondition")
            ex.oblige(s, "high half of the result is the second sum modulo 65521",
                      z3.And((SB(I(n)) - I(z3.Extract(31, 16, r))) % P == 0, z3.ULT(z3.Extract(31, 16, r), bv(P, 16))), "postcondition")
        return ex, lambda: ex.run(st, fname(), [a, Ptr(b.id), n], ret)
    H.solve(make)


def t_null(v):
    ex = v.exec(M, "adler32 (no buffer)", max_unroll=20)
    st = State()
    n, a = ex.fresh("len"), ex.fresh("adler", 32)
    ex.run(st, fname(), [a, NULL, n], lambda s, r: ex.oblige(s, "without a buffer the initial value is returned", r == 1, "postcondition"))


def t_worst(v):
    """the recursion that bounds the second sum has the closed form (P-1)(j+1) + 255 j(j+1)/2, which fits 32 bits up to NMAX bytes"""
    j, m = z3.Ints("j m")
    cf = lambda j: 2 * (P - 1) * (j + 1) + 255 * j * (j + 1)
    v.lemma("closed form: base", [], cf(z3.IntVal(0)) == 2 * (P - 1))
    v.lemma("closed form: step", [2 * m == cf(j), j >= 0], 2 * (m + (P - 1) + 255 * (j + 1)) == cf(j + 1))
    v.lemma("bound for at most 5552 bytes", [2 * m == cf(j), j >= 0, j <= NMAX, j * (j + 1) <= NMAX * (NMAX + 1)], m <= (1 << 32) - 1)
    v.lemma("monotone square", [j >= 0, j <= NMAX], j * (j + 1) <= NMAX * (NMAX + 1))


def t_split(v):
    """the checksum of a second piece started from the first piece's result equals the checksum of the whole (induction on the
    length of the second piece; a, b: exact sums of the whole, c, d: exact sums of the second piece started from the reduced value)"""
    a, b, c, d, x, q, r = z3.Ints("a b c d x q r")
    v.lemma("base case: a piece starts from values congruent to the running sums", [q >= 0, q < P, (a - q) % P == 0], (a - q) % P == 0)
    v.lemma("step: both sums stay congruent when one more byte is added", [(a - c) % P == 0, (b - d) % P == 0],
            z3.And(((a + x) - (c + x)) % P == 0, ((b + a + x) - (d + c + x)) % P == 0))
    v.lemma("congruent sums have the same reduced value", [(a - c) % P == 0, q >= 0, q < P, r >= 0, r < P, (a - q) % P == 0, (c - r) % P == 0], q == r)


def tasks(tier):
    return [("adler32", t_adler), ("adler32 (no buffer)", t_null), ("lemma: worst-case sums fit 32 bits", t_worst), ("lemma: checksum of consecutive pieces", t_split)]


def replay(failed, errors, seed, tier):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = bld.native("adler", os.path.join(root, "harness/adler_harness.cpp"), SRC, flags=nat.ASAN)
    cases = [f"{o.cex['adler']} {o.cex['len']} " + " ".join(map(str, o.cex["data"])) for o in failed if o.cex]
    return nat.confirm(h, cases, [], seed, 20)


native_search = True
