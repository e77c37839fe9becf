"""C09  Diffie-Hellman arithmetic is exact modulo p = 2^128 - 159, so both sides derive the same secret"""
import z3, re, os, subprocess, itertools
from dv import build as bld, libc, nat
from dv.exec import *
from dv.loops import changed_regions

M = L = None
SRC = ["source/cyCrypt/crypt/cyr_dhexchange.cpp"]
TRUSTED = libc.TRUST_TEXT + ["rand() returns any int", "the closed arithmetic lemmas (lemmas/dh.lean) are checked by the Lean kernel on every run"]
ASSUMPTIONS = ["the output object of the internal multiplication does not overlap the by-reference operands of the exponentiation; the quality of rand() as a key source is not judged"]
P = 2 ** 128 - 159
B = z3.BitVecSort(128)
MUL, POW = z3.Function("mul", B, B, B), z3.Function("pw", B, B, B)


def build():
    global M, L
    M, L = bld.module(SRC)


def c128(x): return z3.BitVecVal(x, 128)
def key(ex, st, p): return z3.simplify(z3.Concat(ex.load(st, Ptr(p.r, add64(p.off, 8)), IntTy(64)), ex.load(st, p, IntTy(64))))
def put(ex, st, p, v):
    ex.store(st, p, z3.simplify(z3.Extract(63, 0, v)), 8)
    ex.store(st, Ptr(p.r, add64(p.off, 8)), z3.simplify(z3.Extract(127, 64, v)), 8)


def find(n):
    c = [d for d in M.bydem if re.match(rf"cyclone::{n}\(", d) and M.has(M.bydem[d])]
    if len(c) != 1: raise Unsupported(f"{n}: {len(c)} definitions")
    return c[0]


def new_key(ex, st, name, val=None):
    r = ex.new_reg(st, name, "cells", 16)
    v = ex.fresh(name, 128) if val is None else val
    put(ex, st, Ptr(r.id, 0), v)
    return r.id, v


class MulLoop:
    """r + a*b is congruent to a0*b0: which locals play r, a and b is read off their values on entry"""
    def __init__(self, ctx, pick): self.ctx, self.pick = ctx, pick

    def quantities(self, ex, st, phis):
        out = []
        for rid, r in st.mem.items():
            if r.kind == "cells" and r.alive and not getattr(r, "const", False) and r.size == 16 and 0 in r.cells and 8 in r.cells:
                try: out.append((("mem", rid), key(ex, st, Ptr(rid, 0))))
                except Unsupported: pass
        ps = [I for I in phis if z3.is_bv(phis[I])]
        for I in ps:
            if phis[I].size() == 128: out.append((("phi", I), phis[I]))
        for a, b in itertools.permutations([I for I in ps if phis[I].size() == 64], 2): out.append((("pair", a, b), z3.Concat(phis[b], phis[a])))
        return out

    def get(self, ex, st, phis, q):
        if q[0] == "mem": return key(ex, st, Ptr(q[1], 0))
        return phis[q[1]] if q[0] == "phi" else z3.Concat(phis[q[2]], phis[q[1]])

    def enter(self, ex, st, hdr, phis):
        line = hdr.insts[-1].line
        qs = self.quantities(ex, st, phis)
        roles = []
        for want in (c128(0), self.ctx["a0"], self.ctx["b0"]):
            roles.append([q for q, v in qs if z3.is_true(z3.simplify(v == want)) or ex.valid(st, v == want)])
        combos = [c for c in itertools.product(*roles) if len({str(x) for x in c}) == 3]
        if self.pick >= len(combos):
            for n, r in zip(("accumulator starts at zero", "first operand is the multiplicand", "second operand is the multiplier"), roles):
                if not r: ex.oblige(st, f"multiplication loop: {n} on entry", F, "loop invariant", line)
            raise Unsupported("the loop's accumulator and operands are not recognisable")
        c = combos[self.pick]
        ex.oblige(st, "multiplication loop: r + a*b = a0*b0 on entry (r = 0, a = a0, b = b0)",
                  z3.And(self.get(ex, st, phis, c[0]) == 0, self.get(ex, st, phis, c[1]) == self.ctx["a0"], self.get(ex, st, phis, c[2]) == self.ctx["b0"]), "loop invariant", line)
        for I in phis: phis[I] = ex.fresh_of(I.ty, I.name or "v")
        for rid, r in list(st.mem.items()):
            if r.kind == "cells" and r.alive and r.size == 16 and not r.name.startswith("@") and rid not in self.ctx["keep"]:
                w = st.wreg(rid)
                w.cells.clear()
                w.cells[0], w.cells[8] = (ex.fresh("lo"), 8), (ex.fresh("hi"), 8)
        v = [self.get(ex, st, phis, q) for q in c]
        st.assume(z3.ULT(v[0], c128(P)), z3.ULT(v[1], c128(P)))
        return dict(st.mem), c, v

    def back(self, ex, st, hdr, phis, saved):
        snap, c, (r, a, b) = saved
        line = hdr.insts[-1].line
        ch = [x for x in changed_regions(st, snap) if st.mem[x].size != 16]
        if ch: raise Unsupported("the multiplication loop writes other objects")
        r2, a2, b2 = [self.get(ex, st, phis, q) for q in c]
        W = lambda x: z3.ZeroExt(2, x)
        p, z = W(c128(P)), z3.BitVecVal(0, 130)
        odd = z3.Extract(0, 0, b) == 1
        sum_ = W(r) + z3.If(odd, W(a), z)
        ex.oblige(st, "multiplication loop: the multiplier is halved", b2 == z3.LShR(b, 1), "loop invariant", line)
        ex.oblige(st, "multiplication loop: r' = r + (b odd)*a - k1*p", z3.Or(W(r2) == sum_, W(r2) + p == sum_), "loop invariant", line)
        ex.oblige(st, "multiplication loop: r' is reduced", z3.ULT(r2, c128(P)), "loop invariant", line)
        ex.oblige(st, "multiplication loop: a' = 2*a - k2*p", z3.Or(W(a2) == W(a) + W(a), W(a2) + p == W(a) + W(a)), "loop invariant", line)
        ex.oblige(st, "multiplication loop: a' is reduced", z3.ULT(a2, c128(P)), "loop invariant", line)
        ex.oblige(st, "multiplication loop: the multiplier decreases", z3.ULT(b2, b), "termination", line)
        st.ghost["role"] = c


def t_mul(v): v.strategies(*[(lambda v, k=k: mul(v, k)) for k in range(3)])


def mul(v, pick):
    ex = v.exec(M, "_mulmodp")
    libc.install(ex)
    ex.use_lia = False
    st = State()
    a, b = ex.fresh("a", 128), ex.fresh("b", 128)
    st.assume(z3.ULT(a, c128(P)))
    rid = ex.new_reg(st, "r", "cells", 16).id
    put(ex, st, Ptr(rid, 0), ex.fresh("junk", 128))
    ctx = {"a0": a, "b0": b, "keep": set()}
    lp = MulLoop(ctx, pick)
    ex.loop_specs.append((re.compile(".*"), None, lp))
    fin = {}
    old = lp.enter

    def enter(ex, st, hdr, phis):
        r = old(ex, st, hdr, phis)
        st.ghost["head"] = tuple(r[2])
        return r
    lp.enter = enter
    ex.cexfn = lambda s, m: {"a": hex(m.eval(a, model_completion=True).as_long()), "b": hex(m.eval(b, model_completion=True).as_long())}
    v.cover(ex, st)

    def ret(s, res):
        h = s.ghost.get("head")
        if h is None: raise Unsupported("no multiplication loop")
        ex.oblige(s, "_mulmodp: the loop ends only when the multiplier is used up", h[2] == 0, "postcondition")
        ex.oblige(s, "_mulmodp: the result is the accumulator (so a*b mod p, by lemma)", key(ex, s, Ptr(rid, 0)) == h[0], "postcondition")
        ex.oblige(s, "_mulmodp: the result is reduced", z3.ULT(key(ex, s, Ptr(rid, 0)), c128(P)), "postcondition")
    lo = lambda x: z3.simplify(z3.Extract(63, 0, x))
    hi = lambda x: z3.simplify(z3.Extract(127, 64, x))
    fn = find("_mulmodp")
    ex.run(st, fn, args_for(ex, st, fn, [Ptr(rid, 0), a, b]), ret)


def args_for(ex, st, fn, vals):
    """pass keys the way the compiled function takes them: two words, one 128-bit word, or a pointer"""
    f = M.fn(M.bydem[fn]) if hasattr(M, "fn") else None
    out, ps = [], list(f.args)
    for x in vals:
        if isinstance(x, Ptr):
            out.append(x)
            ps.pop(0)
            continue
        t = ps.pop(0).ty
        if t.kind == "ptr":
            r = ex.new_reg(st, "operand", "cells", 16)
            put(ex, st, Ptr(r.id, 0), x)
            out.append(Ptr(r.id, 0))
        elif t.kind == "int" and t.bits == 128: out.append(x)
        else:
            ps.pop(0)
            out += [z3.simplify(z3.Extract(63, 0, x)), z3.simplify(z3.Extract(127, 64, x))]
    return out


def vals_of(ex, st, a):
    """keys among call arguments, in order"""
    out, i = [], 0
    while i < len(a):
        if isinstance(a[i], Ptr): out.append(key(ex, st, a[i])); i += 1
        elif a[i].size() == 128: out.append(a[i]); i += 1
        else: out.append(z3.simplify(z3.Concat(a[i + 1], a[i]))); i += 2
    return out


def use_mul(ex):
    def h(ex, st, a, I):
        x, y = vals_of(ex, st, a[1:])
        ex.oblige(st, "_mulmodp's precondition: the multiplicand is reduced", z3.ULT(x, c128(P)), "callee precondition", I.line)
        r = MUL(x, y)
        st.assume(r == MUL(y, x), z3.ULT(r, c128(P)))
        put(ex, st, a[0], r)
        return None
    h.label = "contract _mulmodp"
    ex.on(r"^cyclone::_mulmodp\(", h)


def pow_def(a, b):
    """one unfolding of a^b mod p (lean: pw_zero, pw_one, pw_even, pw_odd)"""
    h = POW(a, z3.LShR(b, 1))
    sq = MUL(h, h)
    return POW(a, b) == z3.If(b == 0, c128(1), z3.If(b == 1, a, z3.If(z3.Extract(0, 0, b) == 1, MUL(sq, a), sq)))


def t_pow(v):
    ex = v.exec(M, "_powmodp_r")
    libc.install(ex)
    ex.use_lia = False
    st = State()
    use_mul(ex)
    ar, a = new_key(ex, st, "a")
    br, b = new_key(ex, st, "b")
    rr, _ = new_key(ex, st, "r")
    st.assume(z3.ULT(a, c128(P)), pow_def(a, b), z3.ULT(POW(a, z3.LShR(b, 1)), c128(P)),
              POW(a, c128(0)) == 1, MUL(c128(1), c128(1)) == 1, MUL(c128(1), a) == a, MUL(a, c128(1)) == a)       # lean: pw_zero, mul_one_left, mul_comm')
    ex.cexfn = lambda s, m: {"a": hex(m.eval(a, model_completion=True).as_long()), "b": hex(m.eval(b, model_completion=True).as_long())}

    def rec_(ex, st, x, I):
        if len(st.frames) < 2 and False: return NOTHANDLED
        a2, b2 = vals_of(ex, st, x[1:])
        ex.oblige(st, "_powmodp_r: the exponent decreases in the recursive call", z3.ULT(b2, b), "termination", I.line)
        ex.oblige(st, "_powmodp_r's precondition: the base is reduced", z3.ULT(a2, c128(P)), "callee precondition", I.line)
        put(ex, st, x[0], POW(a2, b2))
        return None
    rec_.label = "contract _powmodp_r (recursion)"
    ex.on(r"^cyclone::_powmodp_r\(", rec_)
    v.cover(ex, st)

    def ret(s, r):
        ex.oblige(s, "_powmodp_r: the result is a^b mod p", key(ex, s, Ptr(rr, 0)) == POW(a, b), "postcondition")
        ex.oblige(s, "_powmodp_r: the operands are unchanged", z3.And(key(ex, s, Ptr(ar, 0)) == a, key(ex, s, Ptr(br, 0)) == b), "frame")
    ex.run(st, find("_powmodp_r"), [Ptr(rr, 0), Ptr(ar, 0), Ptr(br, 0)], ret)


def use_pow(ex):
    def h(ex, st, x, I):
        a2, b2 = vals_of(ex, st, x[1:])
        ex.oblige(st, "_powmodp_r's precondition: the base is reduced", z3.ULT(a2, c128(P)), "callee precondition", I.line)
        put(ex, st, x[0], POW(a2, b2))
        return None
    h.label = "contract _powmodp_r"
    ex.on(r"^cyclone::_powmodp_r\(", h)


def reduced(a): return z3.If(z3.UGE(a, c128(P)), a - c128(P), a)


def t_secret(v):
    ex = v.exec(M, "DH_generate_key_secret")
    libc.install(ex)
    ex.use_lia = False
    st = State()
    use_pow(ex)
    sr, _ = new_key(ex, st, "secret")
    mr, my = new_key(ex, st, "my_private")
    ar, other = new_key(ex, st, "another_public")
    ex.cexfn = lambda s, m: {"public": hex(m.eval(other, model_completion=True).as_long()), "private": hex(m.eval(my, model_completion=True).as_long())}
    v.cover(ex, st)

    def ret(s, r):
        ex.oblige(s, "the secret is (peer public mod p)^private mod p", key(ex, s, Ptr(sr, 0)) == POW(reduced(other), my), "postcondition")
        ex.oblige(s, "the keys given are unchanged", z3.And(key(ex, s, Ptr(mr, 0)) == my, key(ex, s, Ptr(ar, 0)) == other), "frame")
    ex.run(st, find("DH_generate_key_secret"), [Ptr(sr, 0), Ptr(mr, 0), Ptr(ar, 0)], ret)


def t_pair(v):
    ex = v.exec(M, "DH_generate_key_pair")
    libc.install(ex)
    ex.use_lia = False
    st = State()
    use_pow(ex)
    n = [0]
    ex.on(r"^rand$", lambda ex, st, a, I: ex.fresh("rand", 32))
    pr, _ = new_key(ex, st, "public")
    kr, _ = new_key(ex, st, "private")
    v.cover(ex, st)

    def ret(s, r):
        ex.oblige(s, "the public key is 5^private mod p", key(ex, s, Ptr(pr, 0)) == POW(c128(5), key(ex, s, Ptr(kr, 0))), "postcondition")
    ex.run(st, find("DH_generate_key_pair"), [Ptr(pr, 0), Ptr(kr, 0)], ret)


def t_lemmas(v):
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas/dh.lean")
    r = subprocess.run(["lean", f], capture_output=True, text=True)
    ths = re.findall(r"^theorem (\S+)", open(f).read(), re.M)
    bad = r.stdout + r.stderr
    for t in ths: v.fact(f"lemma {t} (Lean)", r.returncode == 0 and "sorry" not in bad and "error" not in bad, bad[:1000], "lean")
    a = z3.BitVec("a", 128)
    v.lemma("one subtraction of p reduces every 128-bit value", [], z3.ULT(reduced(a), c128(P)))
    v.lemma("it is the remainder modulo p", [], z3.Or(reduced(a) == a, z3.ZeroExt(1, reduced(a)) + z3.ZeroExt(1, c128(P)) == z3.ZeroExt(1, a)))


def tasks(tier):
    return [("_mulmodp", t_mul), ("_powmodp_r", t_pow), ("DH_generate_key_secret", t_secret), ("DH_generate_key_pair", t_pair), ("lemmas", t_lemmas)]


def replay(failed, errors, seed, tier):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = bld.native("dh", os.path.join(root, "harness/dh_harness.cpp"), [], flags=("-O1", "-g", f'-DDV_SOURCE="{os.path.join(bld.REPO, SRC[0])}"'))
    cases = []
    for o in failed:
        c = getattr(o, "cex", None)
        if c and "a" in c: cases.append(f"{c['a']} {c['b']}")
        if c and "public" in c: cases.append(f"{c['public']} {c['private']}")
    return nat.confirm(h, cases, [], seed, 10)


native_search = True
