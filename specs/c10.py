"""C10  the xorshift keystream depends only on seed and position and is self-inverse"""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.loops import Progress

M = L = None
SRC = ["source/cyCrypt/crypt/cyr_xorshift128.cpp"]
WRAP = "#include <cy_crypt.h>\nuint64_t dv_next(cyclone::XorShift128& s) { return s.next(); }\n"
TRUSTED = libc.TRUST_TEXT
ASSUMPTIONS = ["buffers of at most 2^60 bytes; the seed object does not live inside the buffer",
               "unaligned word access is permitted by the machine (the code is x86-specific in this respect)"]
NEXT = None
B64 = z3.BitVecSort(64)
s0 = z3.Function("s0", B64, B64)     # the state sequence started from the given seed
s1 = z3.Function("s1", B64, B64)


def build():
    global M, L, OFF0, OFF1
    M, L = bld.module(SRC, text=WRAP)
    f = ["seed0", "seed1"]
    OFF0, OFF1 = (L.off("cyclone::XorShift128", x, f) for x in f)


def step(x, y):
    """xorshift128+ (Vigna): constants 23, 17, 26"""
    t = x ^ (x << 23)
    return t ^ y ^ z3.LShR(t, 17) ^ z3.LShR(y, 26)


OUT = z3.Function("keystream", B64, B64)      # keystream(k) = s1(k+1) + s1(k)
PLAIN = [False]


def out(k):
    if PLAIN[0]: return OUT(z3.simplify(k))
    return s1(z3.simplify(k + 1)) + s1(k)


def linear(t):
    """t as {term: coefficient} with constant under None (modulo 2^64)"""
    t = z3.simplify(t, mul2concat=False)
    k = t.decl().kind()
    if z3.is_bv_value(t): return {None: t.as_long()}
    if k == z3.Z3_OP_BADD:
        r = {}
        for c in t.children():
            for a, n in linear(c).items(): r[a] = (r.get(a, 0) + n) % (1 << 64)
        return r
    if k == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)): return {a: n * t.arg(0).as_long() % (1 << 64) for a, n in linear(t.arg(1)).items()}
    if k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.children()[-1]) and t.children()[-1].as_long() == 0 and t.num_args() == 2 and t.arg(0).decl().kind() == z3.Z3_OP_EXTRACT:
        e = t.arg(0)
        hi, lo = e.params()
        if lo == 0 and e.arg(0).size() == 64: return {a: n * (1 << t.arg(1).size()) % (1 << 64) for a, n in linear(e.arg(0)).items()}
    return {t: 1}


ENV = [None, None]


def shr3(t):
    """t div 8, without the shift when t is visibly a multiple of 8 plus a constant (checked with the solver)"""
    l = linear(t)
    c = l.pop(None, 0)
    if l and all(n % 8 == 0 for n in l.values()) and ENV[0]:
        sg = lambda n: n - (1 << 64) if n >> 63 else n
        cand = bv(sg(c) // 8)
        for a, n in l.items(): cand = cand + a * (sg(n) // 8)
        cand = z3.simplify(cand)
        if ENV[0].valid(ENV[1], z3.LShR(t, 3) == cand): return cand
    return z3.simplify(z3.LShR(t, 3))


def low3(t):
    l = linear(t)
    c = l.pop(None, 0)
    return bv(c % 8) if all(n % 8 == 0 for n in l.values()) else t & 7


def key_byte(j):
    """keystream byte j: byte j mod 8 (little endian) of word j div 8"""
    j = z3.simplify(j)
    return z3.Extract(7, 0, z3.LShR(out(shr3(j)), low3(j) << 3))


def seed_at(ex, st, sid): return tuple(ex.load_cell(st, sid, o, 8, IntTy(64)) for o in (OFF0, OFF1))


def sig(pre):
    c = [d for d in M.bydem if d.startswith(pre) and M.has(M.bydem[d])]
    if len(c) != 1: raise bld.BuildError(f"{pre}: {len(c)} definitions")
    return c[0]


def t_next(v):
    ex = v.exec(M, "XorShift128::next")
    st = State()
    s = ex.new_reg(st, "seed", "cells", L.sizeof("cyclone::XorShift128"))
    x, y = seed_at(ex, st, s.id)
    v.cover(ex, st)

    def ret(t, r):
        a, b = seed_at(ex, t, s.id)
        ex.oblige(t, "first state word becomes the old second word", a == y, "postcondition")
        ex.oblige(t, "second state word follows the xorshift128+ recurrence", b == step(x, y), "postcondition")
        ex.oblige(t, "the output is the sum of the two", r == step(x, y) + y, "postcondition")
    ex.run(st, sig("dv_next("), [Ptr(s.id)], ret)


class Form:
    """bytes before progress P are encrypted, the others untouched; seed: same / words (S(ceil(P/8)))"""

    def __init__(self, kind, ctx): self.kind, self.ctx, self.name = kind, ctx, kind

    def regions(self, ex, st): return [self.ctx["buf"]] + ([self.ctx["seed"]] if self.kind == "words" else [])

    def want(self, P): return lambda j: z3.If(z3.ULT(j, P), self.ctx["B"](j) ^ key_byte(j), self.ctx["B"](j))

    def K(self, P): return shr3(z3.simplify(P + 7))

    def havoc(self, ex, st, P):
        ENV[:] = [ex, st]
        want, s0_ = self.want(P), st.clone()
        memo = {}

        def sel(j):
            d = z3.simplify(j - P)
            if z3.is_bv_value(d) and d.as_long() < 64:
                k = d.as_long()
                if k not in memo: memo[k] = ex.valid(s0_, z3.ULE(P, j))
                if memo[k]: return self.ctx["B"](j)
            return want(j)
        st.wreg(self.ctx["buf"]).content = CFun(sel)
        st.assume(z3.ULE(P, self.ctx["len"]))
        s0_.assume(z3.ULE(P, self.ctx["len"]))
        if self.kind == "words":
            w = st.wreg(self.ctx["seed"])
            w.cells[OFF0], w.cells[OFF1] = (s0(self.K(P)), 8), (s1(self.K(P)), 8)

    def check(self, ex, st, P):
        ENV[:] = [ex, st]
        j = ex.fresh("j")
        got = st.mem[self.ctx["buf"]].content.sel(j)
        r = [("progress within the buffer", z3.ULE(P, self.ctx["len"])),
             ("bytes not reached yet are untouched", z3.Implies(z3.And(z3.ULT(j, self.ctx["len"]), z3.ULE(P, j)), got == self.ctx["B"](j))),
             ("bytes processed earlier are encrypted", z3.Implies(z3.And(z3.ULT(j, self.ctx["len"]), z3.ULT(j + 8, P)), got == (self.ctx["B"](j) ^ key_byte(j))))]
        for k in range(1, 9):
            j = z3.simplify(P - k)
            r.append((f"byte {k} before the progress is encrypted", z3.Implies(z3.ULE(bv(k), P), st.mem[self.ctx["buf"]].content.sel(j) == (self.ctx["B"](j) ^ key_byte(j)))))
        if self.kind == "words":
            a, b = seed_at(ex, st, self.ctx["seed"])
            r.append(("the generator state is the one after the words used so far", z3.And(a == s0(self.K(P)), b == s1(self.K(P)))))
        return r


def use_next(ex, hold):
    """XorShift128::next by its contract (proved below on its own)"""
    def nxt(ex, st, a, I):
        if a[0].r != hold["seed"] or a[0].off != 0: return NOTHANDLED
        x, y = seed_at(ex, st, a[0].r)
        if not (z3.is_app(x) and z3.is_app(y) and x.decl().eq(s0) and y.decl().eq(s1) and x.arg(0).eq(y.arg(0))): return NOTHANDLED
        k = x.arg(0)
        k1 = z3.simplify(k + 1)
        w = st.wreg(a[0].r)
        w.cells[OFF0], w.cells[OFF1] = (s0(k1), 8), (s1(k1), 8)
        return out(k)
    nxt.label = "contract XorShift128::next"
    ex.on(r"^cyclone::XorShift128::next\(\)$", nxt)


def t_crypt(v): v.strategies(lambda v: crypt(v, True), lambda v: crypt(v, False))


def crypt(v, by_contract):
    hold = {}
    PLAIN[0] = by_contract

    def measures(ex, st, hdr, phis):
        n = hold["len"]
        r = []
        base = z3.simplify(z3.LShR(n, 3) << 3)
        for p, x in phis.items():
            if isinstance(x, Ptr) and x.r == hold["buf"]: r.append((f"offset of {p.name}", lambda e, p=p: b64(e[p].off)))
            elif z3.is_bv(x) and x.size() == 64:
                r += [(f"8*{p.name}", lambda e, p=p: e[p] * 8), (f"{p.name}", lambda e, p=p: e[p]), (f"whole words + {p.name}", lambda e, p=p: base + e[p]),
                      (f"length - {p.name}", lambda e, p=p: n - e[p]), (f"length - 8*{p.name}", lambda e, p=p: n - e[p] * 8),
                      (f"whole words - 8*{p.name}", lambda e, p=p: base - e[p] * 8)]
        return [(a, (lambda e, f=f: z3.simplify(f(e)))) for a, f in r]

    def gen(ex, st, hdr, phis):
        n, r = hold["len"], []
        base = z3.simplify(z3.LShR(n, 3) << 3)
        P = lambda e: e["P"]
        r += [("progress is a multiple of 8", lambda e: P(e) & 7 == 0), ("progress <= whole words", lambda e: z3.ULE(P(e), base)),
              ("progress >= whole words", lambda e: z3.ULE(base, P(e)))]
        for p, x in phis.items():
            if p == "P": continue
            if isinstance(x, Ptr) and x.r == hold["buf"]:
                r.append((f"{p.name} points at the progress", lambda e, p=p: b64(e[p].off) == P(e), (p, lambda e: Ptr(hold["buf"], P(e)))))
            elif z3.is_bv(x):
                z = (lambda t: t) if x.size() == 64 else (lambda t: z3.ZeroExt(64 - t.size(), t))
                if x.size() > 64: continue
                r += [(f"8*{p.name} = progress", lambda e, p=p, z=z: z(e[p]) * 8 == P(e)), (f"{p.name} = progress", lambda e, p=p, z=z: z(e[p]) == P(e)),
                      (f"{p.name} <= length", lambda e, p=p, z=z: z3.ULE(z(e[p]), n)), (f"{p.name} <= words", lambda e, p=p, z=z: z3.ULE(z(e[p]), z3.LShR(n, 3))),
                      (f"{p.name} < 8", lambda e, p=p, z=z: z3.ULT(z(e[p]), bv(8))),
                      (f"{p.name} = length - progress", lambda e, p=p, z=z: z(e[p]) == n - P(e)), (f"8*{p.name} = whole words - progress", lambda e, p=p, z=z: z(e[p]) * 8 == base - P(e)),
                      (f"{p.name} = progress - whole words", lambda e, p=p, z=z: z(e[p]) == P(e) - base)]
                if x.size() == 64:
                    r += [(f"{p.name} is the current keystream word", lambda e, p=p: z3.Or(P(e) & 7 == 0, e[p] == out(z3.LShR(P(e), 3)))),
                          (f"{p.name} is the last keystream word", lambda e, p=p: e[p] == out(z3.LShR(n, 3))),
                          (f"{p.name} is the current keystream word, shifted", lambda e, p=p: z3.Or(P(e) & 7 == 0, e[p] == z3.LShR(out(z3.LShR(P(e), 3)), (P(e) & 7) << 3))),
                          (f"{p.name} is the last keystream word, shifted by the tail progress", lambda e, p=p: e[p] == z3.LShR(out(z3.LShR(n, 3)), (P(e) - base) << 3)),
                          (f"{p.name} is the last keystream word, shifted", lambda e, p=p: e[p] == z3.LShR(out(z3.LShR(n, 3)), (P(e) & 7) << 3))]
        return r

    H = Progress(re.compile(r".*xorshift128\(|.*XorShift128::"), gen, measures, [Form("same", hold), Form("words", hold)])

    def make():
        ex = v.exec(M, "xorshift128", max_unroll=9, timeout_ms=60000)
        libc.install(ex)
        H.attach(ex)
        ex.bv_first = 2500
        st = State()
        n = ex.fresh("len")
        st.assume(z3.ULE(n, bv(1 << 60)))
        b = ex.new_reg(st, "buf", "bytes", n)
        s = ex.new_reg(st, "seed", "cells", L.sizeof("cyclone::XorShift128"))
        w = st.wreg(s.id)
        w.cells[OFF0], w.cells[OFF1] = (s0(bv(0)), 8), (s1(bv(0)), 8)
        if by_contract: use_next(ex, hold)
        else: st.foralls.append(("s1", lambda k: z3.And(s0(z3.simplify(k + 1)) == s1(k), s1(z3.simplify(k + 1)) == step(s0(k), s1(k)))))
        B = st.mem[b.id].content.sel
        hold.update(buf=b.id, seed=s.id, len=n, B=B)
        ex.small = [z3.ULE(n, bv(40))]
        ex.cexfn = lambda t, m: {"len": m.eval(n, model_completion=True).as_long()}
        v.res.covers or v.cover(ex, st)

        def ret(t, r):
            j = ex.fresh("j")
            got = t.mem[b.id].content.sel(j)
            ex.oblige(t, "every byte is xored with the keystream byte at its position", z3.Implies(z3.ULT(j, n), got == (B(j) ^ key_byte(j))), "postcondition")
            K = z3.simplify(z3.LShR(n + 7, 3))
            a, c = seed_at(ex, t, s.id)
            ex.oblige(t, "the seed advances by exactly the words used", z3.And(a == s0(K), c == s1(K)), "postcondition")
        return ex, lambda: ex.run(st, sig("cyclone::xorshift128("), [Ptr(b.id, 0), n, Ptr(s.id)], ret)
    H.solve(make)


def t_lemmas(v):
    x, y, z, w = z3.BitVecs("x y z w", 64)
    b, k = z3.BitVecs("b k", 8)
    v.lemma("the same keystream applied twice restores the byte", [], (b ^ k) ^ k == b)
    u0, u1 = z3.Function("u0", B64, B64), z3.Function("u1", B64, B64)       # sequence restarted from the state after m words
    m, i = z3.BitVecs("m i", 64)
    rec = lambda a, c, t: z3.And(a(t + 1) == c(t), c(t + 1) == step(a(t), c(t)))
    v.lemma("a continued stream continues the sequence (base)", [u0(bv(0)) == s0(m), u1(bv(0)) == s1(m)], z3.And(u0(bv(0)) == s0(m + 0), u1(bv(0)) == s1(m + 0)))
    v.lemma("a continued stream continues the sequence (step)", [u0(i) == s0(m + i), u1(i) == s1(m + i), rec(u0, u1, i), rec(s0, s1, m + i)],
            z3.And(u0(i + 1) == s0(m + i + 1), u1(i + 1) == s1(m + i + 1)))
    j = z3.BitVec("j", 64)
    lim = [z3.ULE(j, bv(1 << 60)), z3.ULE(m, bv(1 << 57))]
    v.lemma("byte j of the second part is byte 8m+j of the whole (word index)", lim, z3.LShR(m * 8 + j, 3) == m + z3.LShR(j, 3))
    v.lemma("byte j of the second part is byte 8m+j of the whole (byte index)", lim, (m * 8 + j) & 7 == j & 7)


def tasks(tier):
    return [("XorShift128::next", t_next), ("xorshift128", t_crypt), ("lemmas: self-inverse and splitting", t_lemmas)]


def replay(failed, errors, seed, tier):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = bld.native("xs", os.path.join(root, "harness/xorshift_harness.cpp"), SRC, flags=nat.ASAN)
    return nat.confirm(h, [], [], seed, 10)


native_search = True
