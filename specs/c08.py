"""C08  AES-128 in CBC mode matches FIPS-197 / SP 800-38A and decryption inverts encryption"""
import z3, re, os
from dv import build as bld, libc, nat, gf2
from dv.exec import *
from dv.loops import Progress

M = L = None
SRC = ["source/cyCrypt/crypt/cyr_rijndael.cpp"]
TRUSTED = libc.TRUST_TEXT
ASSUMPTIONS = ["input and output are the same buffer or do not overlap; the chaining vector, the key and the object are separate from both",
               "buffers of at most 2^60 bytes, a whole number of 16-byte blocks (the documented precondition, asserted by the code)"]
CLS = "cyclone::Rijndael"


def build():
    global M, L
    M, L = bld.module(SRC)


# ---------------------------------------------------------------- FIPS-197
def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def _sbox():
    s = []
    for x in range(256):
        inv = next((y for y in range(256) if gmul(x, y) == 1), 0)
        s.append(0x63 ^ inv ^ ((inv << 1 | inv >> 7) & 255) ^ ((inv << 2 | inv >> 6) & 255) ^ ((inv << 3 | inv >> 5) & 255) ^ ((inv << 4 | inv >> 4) & 255))
    return s


S = _sbox()
SI = [S.index(x) for x in range(256)]
RCON = [1]
while len(RCON) < 10: RCON.append(gmul(RCON[-1], 2))
MIX, INVMIX = (2, 3, 1, 1), (14, 11, 13, 9)


def xt(x): return (x << 1) ^ (z3.SignExt(7, z3.Extract(7, 7, x)) & 0x1b)


def mulc(c, x):
    r = None
    while c:
        if c & 1: r = x if r is None else r ^ x
        x, c = xt(x), c >> 1
    return bv(0, 8) if r is None else r


class Subst:
    """the substitution box as an uninterpreted function: every application is a constant, shared by provably equal arguments"""
    def __init__(self):
        self.g = gf2.GF2()
        self.atoms, self.arg = {}, {}
        self.inverse = False       # Si(S(x)) = x (ground fact over all 256 values)

    def form(self, t): return tuple(self.g.bits(z3.simplify(t)))       # exact normal form: equal terms have equal forms

    def __call__(self, kind, x):
        x = z3.simplify(x)
        if z3.is_bv_value(x): return bv((S if kind == "S" else SI)[x.as_long()], 8)
        try: key = (kind, self.form(x))
        except gf2.NotLinear: key = (kind, x.get_id())
        if key not in self.atoms:
            if kind == "Si" and self.inverse and key[1] in self.arg: return self.arg[key[1]]
            a = z3.BitVec(f"{kind}#{len(self.atoms)}", 8)
            self.atoms[key] = a
            self.keep = getattr(self, "keep", []) + [x]
            if kind == "S": self.arg[self.form(a)] = x
        return self.atoms[key]


def mixcol(col, m): return [z3.simplify(mulc(m[0], col[i]) ^ mulc(m[1], col[(i + 1) % 4]) ^ mulc(m[2], col[(i + 2) % 4]) ^ mulc(m[3], col[(i + 3) % 4])) for i in range(4)]


def cipher(sub, w, x):
    """FIPS-197 Cipher(): w = 11 round keys of 16 bytes, x = 16 bytes"""
    s = [x[i] ^ w[0][i] for i in range(16)]
    for r in range(1, 11):
        s = [sub("S", b) for b in s]
        s = [s[(i % 4) + 4 * ((i // 4 + i % 4) % 4)] for i in range(16)]
        if r < 10: s = sum([mixcol(s[4 * c:4 * c + 4], MIX) for c in range(4)], [])
        s = [z3.simplify(s[i] ^ w[r][i]) for i in range(16)]
    return s


def invcipher(sub, w, x):
    """FIPS-197 InvCipher()"""
    s = [x[i] ^ w[10][i] for i in range(16)]
    for r in range(9, -1, -1):
        s = [s[(i % 4) + 4 * ((i // 4 - i % 4) % 4)] for i in range(16)]
        s = [sub("Si", b) for b in s]
        s = [z3.simplify(s[i] ^ w[r][i]) for i in range(16)]
        if r: s = sum([mixcol(s[4 * c:4 * c + 4], INVMIX) for c in range(4)], [])
    return s


def expand(sub, k):
    """FIPS-197 KeyExpansion()"""
    w = [k[4 * i:4 * i + 4] for i in range(4)]
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0:
            t = [sub("S", b) for b in t[1:] + t[:1]]
            t[0] = t[0] ^ RCON[i // 4 - 1]
        w.append([z3.simplify(a ^ b) for a, b in zip(w[i - 4], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(11)]


def word(b): return z3.simplify(z3.Concat(*b))


# ---------------------------------------------------------------- tables of the code
class Tables:
    """a lookup in one of the code's 256-entry tables, replaced by what the table provably contains"""
    def __init__(self, v, sub): self.v, self.sub, self.seen = v, sub, {}

    def classify(self, ex, st, name, r, ty):
        t, c = r.init
        es = t.elem.size
        if t.count != 256: return None
        val = [ex.const_at(st, t, c, i * es, es, ty) for i in range(256)]
        val = [x.as_long() for x in val]
        best = (257, None)
        for base, f in (("S", S), ("Si", SI), ("id", list(range(256)))):
            cands = set()
            if es == 1: cands.add((1,))
            else:
                for k in (1, 2, 7):         # coefficients read off entries with f = 1, 2, 7
                    e = val[f.index(1)] if k == 1 else None
                    if e is None: continue
                    cands.add(tuple((e >> (8 * (es - 1 - i))) & 255 for i in range(es)))
                for m in (MIX, INVMIX):
                    col = (m[0], m[3], m[2], m[1])
                    for rot in range(4): cands.add(tuple(col[(i - rot) % 4] for i in range(4)))
            for cf in cands:
                want = [int.from_bytes(bytes(gmul(q, f[x]) for q in cf), "big") for x in range(256)]
                bad = [x for x in range(256) if want[x] != val[x]]
                if len(bad) < best[0]: best = (len(bad), base, cf, bad, want, val)
        return best

    def __call__(self, ex, st, name, idx, ty, r):
        if name not in self.seen:
            b = self.classify(ex, st, name, r, ty)
            if b is None: return None
            n, base, cf, bad, want, val = b
            ok = n == 0
            self.v.fact(f"table {name}: entry x is {'.'.join(str(c) for c in cf)} times {base}(x) in GF(2^8), all 256 entries", ok,
                        "" if ok else f"entry {bad[0]} is {val[bad[0]]:#x}, expected {want[bad[0]]:#x}")
            self.seen[name] = (ok, base, cf)
        ok, base, cf = self.seen[name]
        if not ok: raise PathEnd()
        ex.oblige(st, f"table {name} is indexed within its 256 entries", z3.simplify(z3.Extract(idx.size() - 1, 8, idx)) == 0, "memory")
        x = z3.simplify(z3.Extract(7, 0, idx))
        s = x if base == "id" else self.sub(base, x)
        return z3.simplify(z3.Concat(*[mulc(q, s) for q in cf])) if len(cf) > 1 else mulc(cf[0], s)


F_ = ["m_Ke", "m_Kd"]


def obj(ex, st):
    r = ex.new_reg(st, "aes", "cells", L.sizeof(CLS))
    return r.id, L.off(CLS, "m_Ke", F_), L.off(CLS, "m_Kd", F_)


def find(pre):
    c = [d for d in M.bydem if d.startswith(pre) and M.has(M.bydem[d])]
    if not c: raise Unsupported(f"{pre} is not defined")
    return c[0]


def new_exec(v, name, sub):
    ex = v.exec(M, name, max_unroll=60)
    libc.install(ex)
    ex.use_lia = False
    ex.use_gf2 = True
    ex.table_hook = Tables(v, sub)
    return ex


def bytes_reg(ex, st, name):
    r = ex.new_reg(st, name, "cells", 16)
    b = [ex.fresh(f"{name}{i}", 8) for i in range(16)]
    w = st.wreg(r.id)
    for i in range(16): w.cells[i] = (b[i], 1)
    return r.id, b


def get16(ex, st, p): return [ex.load(st, Ptr(p.r, add64(p.off, i)), IntTy(8)) for i in range(16)]


def t_key(v):
    sub = Subst()
    ex = new_exec(v, "Rijndael::Rijndael", sub)
    st = State()
    rid, oe, od = obj(ex, st)
    kr, k = bytes_reg(ex, st, "key")

    def ret(s, _):
        w = expand(sub, k)
        for r in range(11):
            for c in range(4):
                ex.oblige(s, f"encryption round key word {4 * r + c} is FIPS-197 KeyExpansion's", ex.load_cell(s, rid, oe + 16 * r + 4 * c, 4, IntTy(32)) == word(w[r][4 * c:4 * c + 4]), "postcondition")
                e = w[10 - r][4 * c:4 * c + 4]
                if 0 < r < 10: e = mixcol(e, INVMIX)
                ex.oblige(s, f"decryption round key word {4 * r + c} is the equivalent inverse cipher's", ex.load_cell(s, rid, od + 16 * r + 4 * c, 4, IntTy(32)) == word(e), "postcondition")
        ex.oblige(s, "the key is unchanged", z3.And([a == b for a, b in zip(get16(ex, s, Ptr(kr, 0)), k)]), "frame")
    ex.run(st, find("cyclone::Rijndael::Rijndael("), [Ptr(rid), Ptr(kr, 0)], ret)


def with_keys(ex, st):
    rid, oe, od = obj(ex, st)
    w = [[ex.fresh(f"w{r}_{i}", 8) for i in range(16)] for r in range(11)]
    c = st.wreg(rid)
    for r in range(11):
        for k in range(4):
            c.cells[oe + 16 * r + 4 * k] = (word(w[r][4 * k:4 * k + 4]), 4)
            e = w[10 - r][4 * k:4 * k + 4]
            if 0 < r < 10: e = mixcol(e, INVMIX)
            c.cells[od + 16 * r + 4 * k] = (word(e), 4)
    return rid, w


def block(v, dec, same):
    sub = Subst()
    nm = "_decryptBlock" if dec else "_encryptBlock"
    ex = new_exec(v, nm, sub)
    st = State()
    rid, w = with_keys(ex, st)
    ir, x = bytes_reg(ex, st, "in")
    orr = ir if same else ex.new_reg(st, "result", "cells", 16).id
    snap = dict(st.mem[rid].cells)

    def ret(s, _):
        want = (invcipher if dec else cipher)(sub, w, x)
        got = get16(ex, s, Ptr(orr, 0))
        for i in range(16): ex.oblige(s, f"{nm}: byte {i} is FIPS-197 {'InvCipher' if dec else 'Cipher'}'s{' (in place)' if same else ''}", got[i] == want[i], "postcondition")
        ex.oblige(s, f"{nm}: the round keys are unchanged", T if s.mem[rid].cells == snap else F, "frame")
        if not same: ex.oblige(s, f"{nm}: the input is unchanged", z3.And([a == b for a, b in zip(get16(ex, s, Ptr(ir, 0)), x)]), "frame")
    ex.run(st, find(f"cyclone::Rijndael::{nm}("), [Ptr(rid), Ptr(ir, 0), Ptr(orr, 0)], ret)


# ---------------------------------------------------------------- CBC
B128 = z3.BitVecSort(128)
E, D = z3.Function("E", B128, B128), z3.Function("D", B128, B128)
BLK = z3.Function("block", z3.BitVecSort(64), B128)       # block b of the original input
CH = z3.Function("chain", z3.BitVecSort(64), B128)        # SP 800-38A: chain(0) = IV, chain(b+1) = E(chain(b) xor block(b))


def cat(bs): return z3.simplify(z3.Concat(*bs))
def byte(x, i): return z3.Extract(127 - 8 * i, 120 - 8 * i, x)
def vbyte(x, i64): return z3.Extract(7, 0, z3.LShR(x, z3.ZeroExt(64, (15 - (i64 & 15)) * 8)))


class Form:
    """bytes before the progress are the CBC output, the others untouched; the k-th local 16-byte object is the chaining value"""
    def __init__(self, k, ctx): self.k, self.ctx, self.name = k, ctx, f"chain in local {k}"

    def locals_(self, ex, st):
        fixed = self.ctx["fixed"]
        return sorted(r.id for r in st.mem.values() if r.kind == "cells" and r.alive and r.size == 16 and r.id not in fixed and not r.name.startswith("@"))

    def regions(self, ex, st): return [self.ctx["out"]] + self.locals_(ex, st)

    def prev(self, b):
        if self.ctx["dec"]: return z3.If(b == 0, self.ctx["IV"], BLK(z3.simplify(b - 1)))
        return CH(z3.simplify(b))

    def want(self, j): return wanted(self.ctx, j)

    def havoc(self, ex, st, P):
        c = self.ctx
        orig = c["OUT0"]

        def sel(j):
            d = z3.simplify(j - P)
            if z3.is_bv_value(d) and d.as_long() < 64: return orig(j)
            return z3.If(z3.ULT(j, P), self.want(j), orig(j))
        st.wreg(c["out"]).content = CFun(sel)
        ls = self.locals_(ex, st)
        b = z3.simplify(z3.LShR(P, 4))
        for i, rid in enumerate(ls):
            w = st.wreg(rid)
            w.cells.clear()
            for q in range(16): w.cells[q] = (z3.simplify(byte(self.prev(b), q)) if i == self.k else ex.fresh("tmp", 8), 1)
        st.assume(z3.ULE(P, c["n"]), P & 15 == 0)
        facts(c, st, b, P)

    def check(self, ex, st, P):
        c = self.ctx
        ls = self.locals_(ex, st)
        if self.k >= len(ls): return [("the chaining value is kept in a local block", F)]
        j = ex.fresh("j")
        out = st.mem[c["out"]].content
        b = z3.simplify(z3.LShR(P, 4))
        r = [("whole blocks are processed, within the buffer", z3.And(z3.ULE(P, c["n"]), P & 15 == 0)),
             ("bytes not reached yet are untouched", z3.Implies(z3.And(z3.ULT(j, c["n"]), z3.ULE(P, j)), out.sel(j) == c["OUT0"](j)))]
        try: ch = cat(get16(ex, st, Ptr(ls[self.k], 0)))
        except Unsupported: return [("the chaining value is kept in a local block", F)]
        r.append(("the chaining value is CBC's", ch == self.prev(b)))
        for k in range(1, 17):
            jj = z3.simplify(P - k)
            # equals wanted(jj) by the closed lemmas 'byte k before a block boundary'
            r.append((f"output byte {k} before the progress is CBC's", z3.Implies(z3.ULE(bv(16), P), out.sel(jj) == byte(wanted_block(c, z3.simplify(b - 1)), 16 - k))))
        r.append(("output bytes of earlier blocks are CBC's", z3.Implies(z3.And(z3.ULT(j, P), z3.ULE(j + 16, P - 1), z3.ULE(bv(16), P)), out.sel(j) == self.want(j))))
        return r


def wanted(c, j):
    b = z3.simplify(z3.LShR(j, 4))
    if not c["dec"]: return vbyte(CH(z3.simplify(b + 1)), j)
    return vbyte(D(BLK(b)), j) ^ vbyte(z3.If(b == 0, c["IV"], BLK(z3.simplify(b - 1))), j)


def wanted_block(c, b):
    if not c["dec"]: return CH(z3.simplify(b + 1))
    return D(BLK(b)) ^ z3.If(b == 0, c["IV"], BLK(z3.simplify(b - 1)))


def facts(c, st, b, P):
    """the definitions of block(b) and chain(b+1) at the block in progress"""
    st.assume(z3.Implies(z3.ULT(P, c["n"]), BLK(b) == cat([c["IN"](z3.simplify(P + k)) for k in range(16)])))
    st.assume(CH(z3.simplify(b + 1)) == E(CH(b) ^ BLK(b)), CH(bv(0)) == c["IV"])


def cbc(v, dec, same, has_iv):
    nm = "decrypt" if dec else "encrypt"
    hold = {}

    def measures(ex, st, hdr, phis):
        r = []
        for p, x in phis.items():
            if isinstance(x, Ptr) and x.r in (hold["in"], hold["out"]): r.append((f"offset of {p.name}", lambda e, p=p: b64(e[p].off)))
            elif z3.is_bv(x) and x.size() in (32, 64):
                z = (lambda t: t) if x.size() == 64 else (lambda t: z3.ZeroExt(32, t))
                r += [(f"{p.name}", lambda e, p=p, z=z: z(e[p])), (f"size - {p.name}", lambda e, p=p, z=z: hold["n"] - z(e[p])), (f"16*{p.name}", lambda e, p=p, z=z: z(e[p]) * 16),
                      (f"size - 16*{p.name}", lambda e, p=p, z=z: hold["n"] - z(e[p]) * 16)]
        return [(a, (lambda e, f=f: z3.simplify(f(e)))) for a, f in r]

    def gen(ex, st, hdr, phis):
        r, n = [], hold["n"]
        for p, x in phis.items():
            if p == "P": continue
            if isinstance(x, Ptr) and x.r in (hold["in"], hold["out"]): r.append((f"{p.name} points at the progress", lambda e, p=p: b64(e[p].off) == e["P"], (p, lambda e, r=x.r: Ptr(r, e["P"]))))
            elif z3.is_bv(x) and x.size() == 64:
                r += [(f"{p.name} = progress", lambda e, p=p: e[p] == e["P"]), (f"{p.name} = size - progress", lambda e, p=p: e[p] == n - e["P"]), (f"16*{p.name} = progress", lambda e, p=p: z3.And(e[p] * 16 == e["P"], z3.ULE(e[p], z3.LShR(n, 4)))),
                      (f"16*{p.name} = size - progress", lambda e, p=p: z3.And(e[p] * 16 == n - e["P"], z3.ULE(e[p], z3.LShR(n, 4))))]
        return r
    H = Progress(re.compile(rf".*Rijndael::{nm}\("), gen, measures, [Form(k, hold) for k in range(4)])

    def make():
        ex = v.exec(M, nm, max_unroll=20, timeout_ms=30000)
        libc.install(ex)
        ex.use_lia = False
        ex.bv_first = 8000
        H.attach(ex)
        st = State()
        n = ex.fresh("size")
        st.assume(z3.ULE(n, bv(1 << 60)), n & 15 == 0)
        rid, oe, od = obj(ex, st)
        inr = ex.new_reg(st, "input", "bytes", n)
        out = inr if same else ex.new_reg(st, "output", "bytes", n)
        IN, OUT0 = st.mem[inr.id].content.sel, st.mem[out.id].content.sel
        fixed = {rid}
        if has_iv:
            ivr, ivb = bytes_reg(ex, st, "iv")
            fixed.add(ivr)
            IV = cat(ivb)
            ivp = Ptr(ivr, 0)
        else:
            gr = ex.global_reg(st, "_ZN7cyclone8Rijndael9DefaultIVE")
            IV = cat(get16(ex, st, Ptr(gr, 0)))
            v.fact("the default initial vector is a constant", z3.is_bv_value(IV))
            ivp = NULL
        hold.update({"n": n, "in": inr.id, "out": out.id, "IN": IN, "OUT0": OUT0, "IV": IV, "dec": dec, "fixed": fixed})
        facts(hold, st, bv(0), bv(0))
        ex.small = [z3.ULE(n, bv(64))]
        ex.cexfn = lambda s, m: {"op": nm, "same": same, "iv": has_iv, "n": m.eval(n, model_completion=True).as_long()}

        def blockfn(fn, uf):
            def h(ex, st, a, I):
                if not (isinstance(a[0], Ptr) and a[0].r == rid): return NOTHANDLED
                x = cat(get16(ex, st, a[1]))
                y = uf(x)
                ex.check_access(st, ex.resolve(st, a[2]), 16, True, I.line, "block output")
                for k in range(16): ex.store(st, Ptr(a[2].r, add64(a[2].off, k)), z3.simplify(byte(y, k)), 1, I.line)
                return None
            h.label = f"contract {fn}"
            ex.on(rf"^cyclone::Rijndael::{fn}\(", h)
        blockfn("_encryptBlock", E)
        blockfn("_decryptBlock", D)
        v.res.covers or v.cover(ex, st)

        def ret(s, _):
            j = ex.fresh("j")
            ex.oblige(s, f"{nm}: every output byte is CBC's", z3.Implies(z3.ULT(j, n), s.mem[out.id].content.sel(j) == wanted(hold, j)), "postcondition")
            if not same: ex.oblige(s, f"{nm}: the input is unchanged", z3.Implies(z3.ULT(j, n), s.mem[inr.id].content.sel(j) == IN(j)), "frame")
            if has_iv:
                nb = z3.simplify(z3.LShR(n, 4))
                last = CH(nb) if not dec else z3.If(nb == 0, IV, BLK(z3.simplify(nb - 1)))
                ex.oblige(s, f"{nm}: the chaining vector handed back continues the chain", cat(get16(ex, s, ivp)) == last, "postcondition")
            ex.oblige(s, f"{nm}: the round keys are unchanged", T if not s.mem[rid].cells else F, "frame")
        return ex, lambda: ex.run(st, find(f"cyclone::Rijndael::{nm}("), [Ptr(rid), Ptr(inr.id, 0), Ptr(out.id, 0), n, ivp], ret)
    H.solve(make)


def t_lemmas(v):
    v.fact("SubBytes: the inverse box undoes the box on all 256 values", all(SI[S[x]] == x and S[SI[x]] == x for x in range(256)))
    col = [z3.BitVec(f"c{i}", 8) for i in range(4)]
    back = mixcol(mixcol(col, MIX), INVMIX)
    for i in range(4): v.lemma(f"InvMixColumns undoes MixColumns (row {i})", [], back[i] == col[i])
    for i in range(4):
        d = [z3.BitVec(f"d{i}", 8) for i in range(4)]
        v.lemma(f"InvMixColumns is linear (row {i})", [], mixcol([a ^ b for a, b in zip(col, d)], INVMIX)[i] == mixcol(col, INVMIX)[i] ^ mixcol(d, INVMIX)[i])
    sub = Subst()
    sub.inverse = True
    w = [[z3.BitVec(f"w{r}_{i}", 8) for i in range(16)] for r in range(11)]
    x = [z3.BitVec(f"x{i}", 8) for i in range(16)]
    y = invcipher(sub, w, cipher(sub, w, x))
    for i in range(16): v.lemma(f"InvCipher(Cipher(x)) = x for every key schedule (byte {i})", [], y[i] == x[i])
    a, c = z3.BitVecs("a c", 128)
    P = z3.BitVec("P", 64)
    for k in range(1, 17):
        v.lemma(f"byte {k} before a block boundary lies in the previous block", [P & 15 == 0, z3.UGE(P, 16)], z3.LShR(P - k, 4) == z3.LShR(P, 4) - 1)
        v.lemma(f"byte {k} before a block boundary is byte {16 - k} of its block", [P & 15 == 0], vbyte(a, P - k) == byte(a, 16 - k))
    v.lemma("CBC: decrypting a block restores the plaintext block", [D(E(a ^ c)) == a ^ c], D(E(a ^ c)) ^ c == a)
    ch2 = z3.Function("chain2", z3.BitVecSort(64), B128)
    m, i = z3.BitVecs("m i", 64)
    v.lemma("CBC in consecutive calls continues the chain (base)", [ch2(bv(0)) == CH(m)], ch2(bv(0)) == CH(m + 0))
    v.lemma("CBC in consecutive calls continues the chain (step)", [ch2(i) == CH(m + i), ch2(i + 1) == E(ch2(i) ^ BLK(m + i)), CH(m + i + 1) == E(CH(m + i) ^ BLK(m + i))], ch2(i + 1) == CH(m + i + 1))


def tasks(tier):
    r = [("Rijndael::Rijndael (key schedule)", t_key)]
    for dec in (False, True):
        for same in (False, True):
            r.append((f"{'_decryptBlock' if dec else '_encryptBlock'}{' in place' if same else ''}", lambda v, dec=dec, same=same: block(v, dec, same)))
            for iv in (False, True):
                r.append((f"{'decrypt' if dec else 'encrypt'}{' in place' if same else ''}{' with vector' if iv else ''}", lambda v, dec=dec, same=same, iv=iv: cbc(v, dec, same, iv)))
    return r + [("lemmas", t_lemmas)]


def replay(failed, errors, seed, tier):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = bld.native("aes", os.path.join(root, "harness/aes_harness.cpp"), SRC, flags=nat.ASAN)
    return nat.confirm(h, [], [], seed, 10)


native_search = True
