"""Exact translation of quantifier-free bit-vector formulas (linear arithmetic, comparisons, ite, uninterpreted
functions, byte concat/extract) into linear integer arithmetic.  Each bit-vector term t of width n denotes the integer
0 <= [t] < 2^n; every operation that can wrap gets an integer 'wrap count' variable, so the translation is exact:
a formula is satisfiable iff its translation is.  Raises NotLinear on anything else (the caller falls back to bit-blasting)."""
import z3


class NotLinear(Exception):
    pass


K = z3
_I = z3.IntSort()


class Tr:
    def __init__(self):
        self.memo = {}          # ast id -> (int expr, lo, hi)
        self.bmemo = {}
        self.side = []
        self.n = 0
        self.ub = {}            # ast id -> known upper bound
        self.keep = []
        self.fns = {}
        self.approx = False

    def bound(self, hyps):
        """upper bounds stated literally by hypotheses (x <= c); they are hypotheses, so using them is sound as long as
        the hypothesis itself is asserted, which the caller does"""
        for h in hyps:
            self._b(h)

    def _b(self, h):
        k = h.decl().kind()
        if k == z3.Z3_OP_AND:
            for c in h.children(): self._b(c)
            return
        neg = False
        if k == z3.Z3_OP_NOT:
            neg = True
            h = h.arg(0)
            k = h.decl().kind()
        if h.num_args() != 2: return
        a, b = h.arg(0), h.arg(1)
        if not z3.is_bv(a): return

        def put(x, c):
            i = x.get_id()
            self.keep.append(x)
            if i not in self.ub or self.ub[i] > c: self.ub[i] = c
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGT):
            strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
            if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT): a, b = b, a
            # a <= b (or a < b)
            if neg:
                a, b, strict = b, a, not strict
            if z3.is_bv_value(b):
                c = b.as_long() - (1 if strict else 0)
                if c >= 0: put(a, c)
            else:
                self.le = getattr(self, "le", [])
                self.le.append((a, b, strict))
        elif k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT):
            # x >=s 0 (as x >=s 0, 0 <=s x, not x <s 0, -1 <s x, ...): the top bit is clear; x <=s c then bounds it
            strict = k in (z3.Z3_OP_SLT, z3.Z3_OP_SGT)
            if k in (z3.Z3_OP_SGEQ, z3.Z3_OP_SGT): a, b = b, a
            if neg: a, b, strict = b, a, not strict
            h = 1 << (a.size() - 1)
            if z3.is_bv_value(a):
                c = a.as_long()
                if c < h or (strict and c == 2 * h - 1): put(b, h - 1)
            elif z3.is_bv_value(b):
                c = b.as_long() - (1 if strict else 0)
                if 0 <= c < h:
                    self.sle = getattr(self, "sle", [])
                    self.sle.append((a, c))
            else:
                self.sl2 = getattr(self, "sl2", [])
                self.sl2.append((a, b, strict))
        elif k == z3.Z3_OP_EQ and not neg:
            if z3.is_bv_value(b): put(a, b.as_long())
            elif z3.is_bv_value(a): put(b, a.as_long())

    def close(self):
        """propagate bounds through a <= b chains"""
        for _ in range(4):
            ch = False
            for a, c in getattr(self, "sle", []):
                u = self.ub.get(a.get_id())
                if u is not None and u < 1 << (a.size() - 1) and c < u:
                    self.ub[a.get_id()] = c
                    ch = True
            for a, b, strict in getattr(self, "sl2", []):
                ua, ub = self.ub.get(a.get_id()), self.ub.get(b.get_id())
                h = 1 << (a.size() - 1)
                if ua is not None and ub is not None and ua < h and ub < h and ub - strict < ua and ub - strict >= 0:
                    self.ub[a.get_id()] = ub - (1 if strict else 0)
                    ch = True
            for a, b, strict in getattr(self, "le", []):
                bb = self.ub.get(b.get_id())
                if bb is None: continue
                c = bb - (1 if strict else 0)
                self.keep.append(a)
                if c >= 0 and (a.get_id() not in self.ub or self.ub[a.get_id()] > c):
                    self.ub[a.get_id()] = c
                    ch = True
            if not ch: break

    def fresh(self, p, lo, hi):
        self.n += 1
        v = z3.Int(f"{p}!w{self.n}")
        self.side.append(z3.And(v >= lo, v <= hi))
        return v

    def wrap(self, e, lo, hi, n):
        """reduce e (in [lo,hi]) modulo 2^n"""
        M = 1 << n
        if lo >= 0 and hi < M: return e, lo, hi
        wl, wh = lo // M, hi // M
        if wl == wh: return e - wl * M, lo - wl * M, hi - wl * M
        w = self.fresh("k", wl, wh)
        r = e - M * w
        self.side.append(z3.And(r >= 0, r < M))
        return r, 0, M - 1

    def bv(self, t):
        i = t.get_id()
        if i in self.memo: return self.memo[i]
        r = self._bv(t)
        e, lo, hi = r
        u = self.ub.get(i)
        if u is not None and u < hi:
            r = (e, min(lo, u), u)
            self.side.append(e <= u)
        self.memo[i] = r
        self.keep.append(t)
        return r

    def _bv(self, t):
        n = t.size()
        M = 1 << n
        if z3.is_bv_value(t):
            v = t.as_long()
            return z3.IntVal(v), v, v
        d = t.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            hi = M - 1
            if t.num_args() == 0:
                v = z3.Int("i:" + d.name())
            else:
                args = []
                for a in t.children():
                    if z3.is_bv(a): args.append(self.bv(a)[0])
                    elif z3.is_bool(a): args.append(self.b(a))
                    elif z3.is_int(a): args.append(a)
                    else: raise NotLinear(f"argument sort {a.sort()}")
                key = d.name()
                if key not in self.fns:
                    self.fns[key] = z3.Function("f:" + key, *[x.sort() for x in args], _I)
                v = self.fns[key](*args)
            self.side.append(z3.And(v >= 0, v <= hi))
            return v, 0, hi
        if k == z3.Z3_OP_ITE:
            c = self.b(t.arg(0))
            a, al, ah = self.bv(t.arg(1))
            b, bl, bh = self.bv(t.arg(2))
            return z3.If(c, a, b), min(al, bl), max(ah, bh)
        if k == z3.Z3_OP_BADD:
            e, lo, hi = self.bv(t.arg(0))
            for c in t.children()[1:]:
                if z3.is_bv_value(c) and c.as_long() >= M // 2:
                    v = M - c.as_long()
                    e, lo, hi = e - v, lo - v, hi - v
                    continue
                # x + (-1)*y
                if c.decl().kind() == z3.Z3_OP_BMUL and c.num_args() == 2 and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long() >= M // 2:
                    f = M - c.arg(0).as_long()
                    x, xl, xh = self.bv(c.arg(1))
                    e, lo, hi = e - f * x, lo - f * xh, hi - f * xl
                    continue
                x, xl, xh = self.bv(c)
                e, lo, hi = e + x, lo + xl, hi + xh
            return self.wrap(e, lo, hi, n)
        if k == z3.Z3_OP_BSUB:
            e, lo, hi = self.bv(t.arg(0))
            for c in t.children()[1:]:
                x, xl, xh = self.bv(c)
                e, lo, hi = e - x, lo - xh, hi - xl
            return self.wrap(e, lo, hi, n)
        if k == z3.Z3_OP_BNEG:
            x, xl, xh = self.bv(t.arg(0))
            return self.wrap(-x, -xh, -xl, n)
        if k == z3.Z3_OP_BMUL:
            vals = [c for c in t.children() if z3.is_bv_value(c)]
            rest = [c for c in t.children() if not z3.is_bv_value(c)]
            if len(rest) > 1: raise NotLinear("product of variables")
            f = 1
            for c in vals: f = f * c.as_long() % M
            if not rest: return z3.IntVal(f), f, f
            x, xl, xh = self.bv(rest[0])
            if f >= M // 2: f -= M
            e = f * x
            lo, hi = (f * xl, f * xh) if f >= 0 else (f * xh, f * xl)
            return self.wrap(e, lo, hi, n)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.bv(t.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            x, xl, xh = self.bv(t.arg(0))
            h = 1 << (t.arg(0).size() - 1)
            if xh < h: return x, xl, xh
            add = M - 2 * h
            return z3.If(x >= h, x + add, x), 0, M - 1
        if k == z3.Z3_OP_CONCAT:
            e, lo, hi = z3.IntVal(0), 0, 0
            for c in t.children():
                x, xl, xh = self.bv(c)
                s = 1 << c.size()
                e, lo, hi = e * s + x, lo * s + xl, hi * s + xh
            return e, lo, hi
        if k == z3.Z3_OP_EXTRACT:
            h, l = d.params()
            a = t.arg(0)
            if a.decl().kind() in (z3.Z3_OP_BXOR, z3.Z3_OP_BOR, z3.Z3_OP_BAND) and a.decl().kind() == z3.Z3_OP_BXOR:
                es = [z3.simplify(z3.Extract(h, l, c)) for c in a.children()]
                r = es[0]
                for c in es[1:]: r = r ^ c
                return self.bv(r)
            x, xl, xh = self.bv(a)
            if l == 0:
                if xh < (1 << (h + 1)): return x, xl, xh
            return self.slice(x, xl, xh, h, l)
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
            if not z3.is_bv_value(t.arg(1)) or t.arg(1).as_long() == 0: raise NotLinear("division by variable")
            m = t.arg(1).as_long()
            x, xl, xh = self.bv(t.arg(0))
            q, r = self.divmod(x, xl, xh, m)
            return r if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) else q
        if k in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
            if not z3.is_bv_value(t.arg(1)) or not 0 < t.arg(1).as_long() < M // 2: raise NotLinear("signed division by a variable")
            m = t.arg(1).as_long()
            x, xl, xh = self.bv(t.arg(0))
            div = k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I)
            if xh < M // 2:
                q, r = self.divmod(x, xl, xh, m)
                return q if div else r
            neg = x >= M // 2
            a = z3.If(neg, M - x, x)            # |x|
            q, r = self.divmod(a, 0, M // 2, m)
            v = (q if div else r)[0]
            return z3.If(z3.And(neg, v != 0), M - v, v), 0, M - 1
        if k == z3.Z3_OP_BAND and t.num_args() == 2:
            a, b = t.arg(0), t.arg(1)
            if z3.is_bv_value(b): a, b = b, a
            if z3.is_bv_value(a):
                m = a.as_long()
                x, xl, xh = self.bv(b)
                if m and (m & (m + 1)) == 0:
                    return self.divmod(x, xl, xh, m + 1)[1]
                # contiguous mask
                tz = (m & -m).bit_length() - 1
                if m and ((m >> tz) & ((m >> tz) + 1)) == 0:
                    q = self.divmod(x, xl, xh, 1 << tz)[0]
                    r = self.divmod(q[0], q[1], q[2], (m >> tz) + 1)[1]
                    return r[0] * (1 << tz), r[1] << tz, r[2] << tz
                if m == 0: return z3.IntVal(0), 0, 0
            raise NotLinear("and")
        if k == z3.Z3_OP_BOR:
            ps = [c for c in sorted(t.children(), key=self.tz) if self.bv(c)[2] != 0]
            if not ps: return z3.IntVal(0), 0, 0
            acc = self.bv(ps[0])
            for c in ps[1:]:
                x = self.bv(c)
                t2 = 1 << self.tz(c)
                if acc[2] >= t2:
                    # the parts overlap unless acc < 2^tz: over-approximated otherwise (a 'sat' answer is then not trusted)
                    self.approx = True
                    f = self.fresh("or", 0, M - 1)
                    acc = (z3.If(x[0] == 0, acc[0], z3.If(acc[0] < t2, acc[0] + x[0], f)), 0, M - 1)
                    continue
                acc = (acc[0] + x[0], acc[1] + x[1], acc[2] + x[2])
            return acc
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            s = t.arg(1).as_long()
            if s >= n: return z3.IntVal(0), 0, 0
            x, xl, xh = self.bv(t.arg(0))
            return self.wrap(x * (1 << s), xl << s, xh << s, n)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            s = t.arg(1).as_long()
            x, xl, xh = self.bv(t.arg(0))
            return self.divmod(x, xl, xh, 1 << s)[0]
        if k == z3.Z3_OP_BNOT:
            x, xl, xh = self.bv(t.arg(0))
            return (M - 1) - x, M - 1 - xh, M - 1 - xl
        if k == z3.Z3_OP_BXOR:
            # commutative-associative operation left uninterpreted (a 'sat' answer is then not trusted)
            flat, stack, c0 = [], [t], 0
            while stack:
                x = stack.pop()
                if x.decl().kind() == z3.Z3_OP_BXOR: stack.extend(x.children())
                elif z3.is_bv_value(x): c0 ^= x.as_long()
                else: flat.append(x)
            flat.sort(key=lambda x: (x.decl().name(), x.sexpr()))
            if not flat: return z3.IntVal(c0), c0, c0
            if c0: flat.append(z3.BitVecVal(c0, n))
            if len(flat) == 1: return self.bv(flat[0])
            return self.opaque(f"xor{n}", [self.bv(x)[0] for x in flat], M, True)
        if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL, z3.Z3_OP_BASHR):
            return self.opaque(f"{d.name()}{n}", [self.bv(x)[0] for x in t.children()], M, False)
        raise NotLinear(f"{d.name()}")

    def opaque(self, name, args, M, comm):
        self.approx = True
        f = self.fns.setdefault(name, z3.Function("op:" + name, _I, _I, _I))
        v = args[0]
        for a in args[1:]:
            w = f(v, a)
            self.side.append(z3.And(w >= 0, w < M))
            if comm: self.side.append(w == f(a, v))
            v = w
        return v, 0, M - 1

    def divmod(self, x, xl, xh, m):
        if xh < m: return (z3.IntVal(0), 0, 0), (x, xl, xh)
        q = self.fresh("q", xl // m, xh // m)
        r = x - m * q
        self.side.append(z3.And(r >= 0, r < m))
        return (q, xl // m, xh // m), (r, 0, m - 1)

    def tz(self, t):
        """number of low bits that are certainly zero"""
        k = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_long()
            return (v & -v).bit_length() - 1 if v else t.size()
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)): return min(t.size(), t.arg(1).as_long() + self.tz(t.arg(0)))
        if k == z3.Z3_OP_CONCAT:
            n = 0
            for c in reversed(t.children()):
                x = self.tz(c)
                n += x
                if x < c.size(): break
            return n
        if k == z3.Z3_OP_BMUL: return min(t.size(), sum(self.tz(c) for c in t.children()))
        if k == z3.Z3_OP_ZERO_EXT: 
            x = self.tz(t.arg(0))
            return t.size() if x == t.arg(0).size() else x
        if k == z3.Z3_OP_BOR: return min(self.tz(c) for c in t.children())
        return 0

    def i(self, t):
        """an integer term; bit-vector subterms (bv2int) are translated"""
        key = ("i", t.get_id())
        if key in self.memo: return self.memo[key]
        k = t.decl().kind()
        if k == z3.Z3_OP_BV2INT or t.decl().name() in ("bv2int", "bv2nat", "ubv_to_int"): r = self.bv(t.arg(0))[0]
        elif t.num_args() == 0: r = t
        elif k == z3.Z3_OP_ITE: r = z3.If(self.b(t.arg(0)), self.i(t.arg(1)), self.i(t.arg(2)))
        else:
            ch = [self.i(c) if z3.is_int(c) else self.bv(c)[0] if z3.is_bv(c) else self.b(c) for c in t.children()]
            if k == z3.Z3_OP_UNINTERPRETED:
                nm = "u:" + t.decl().name()
                if nm not in self.fns: self.fns[nm] = z3.Function(nm, *[x.sort() for x in ch], _I)
                r = self.fns[nm](*ch)
            elif k == z3.Z3_OP_ADD: r = z3.Sum(ch)
            elif k == z3.Z3_OP_MUL: r = z3.Product(ch)
            elif k == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]: r = r - c
            else: r = t.decl()(*ch)
        self.memo[key] = r
        self.keep.append(t)
        return r

    def slice(self, x, xl, xh, h, l):
        q = self.divmod(x, xl, xh, 1 << l)[0]
        return self.divmod(q[0], q[1], q[2], 1 << (h - l + 1))[1]

    def signed(self, t):
        x, lo, hi = self.bv(t)
        h = 1 << (t.size() - 1)
        if hi < h: return x
        return z3.If(x >= h, x - 2 * h, x)

    def b(self, t):
        i = t.get_id()
        if i in self.bmemo: return self.bmemo[i]
        r = self._b2(t)
        self.bmemo[i] = r
        self.keep.append(t)
        return r

    def _b2(self, t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return t
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0: return t
            args = []
            for a in t.children():
                if z3.is_bv(a): args.append(self.bv(a)[0])
                elif z3.is_bool(a): args.append(self.b(a))
                else: raise NotLinear("arg")
            key = t.decl().name()
            if key not in self.fns:
                self.fns[key] = z3.Function("p:" + key, *[x.sort() for x in args], z3.BoolSort())
            return self.fns[key](*args)
        if k == z3.Z3_OP_AND: return z3.And([self.b(c) for c in t.children()])
        if k == z3.Z3_OP_OR: return z3.Or([self.b(c) for c in t.children()])
        if k == z3.Z3_OP_NOT: return z3.Not(self.b(t.arg(0)))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(self.b(t.arg(0)), self.b(t.arg(1)))
        if k == z3.Z3_OP_XOR: return z3.Xor(self.b(t.arg(0)), self.b(t.arg(1)))
        if k == z3.Z3_OP_ITE: return z3.If(self.b(t.arg(0)), self.b(t.arg(1)), self.b(t.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            a, b = t.arg(0), t.arg(1)
            if t.num_args() != 2: raise NotLinear("distinct")
            if z3.is_bv(a): r = self.bv(a)[0] == self.bv(b)[0]
            elif z3.is_bool(a): r = self.b(a) == self.b(b)
            elif z3.is_int(a): r = self.i(a) == self.i(b)
            else: raise NotLinear("equality sort")
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = self.bv(t.arg(0))[0], self.bv(t.arg(1))[0]
            return {z3.Z3_OP_ULEQ: a <= b, z3.Z3_OP_ULT: a < b, z3.Z3_OP_UGEQ: a >= b, z3.Z3_OP_UGT: a > b}[k]
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            a, b = self.signed(t.arg(0)), self.signed(t.arg(1))
            return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[k]
        if t.num_args() and z3.is_int(t.arg(0)):
            return t.decl()(*[self.i(c) for c in t.children()])
        raise NotLinear(t.decl().name())


class IntModel:
    """evaluates bit-vector terms in a model of the translation"""

    def __init__(self, tr, m): self.tr, self.m = tr, m

    def eval(self, t, model_completion=True):
        if z3.is_bool(t): return ev(t, self.m, self.tr)
        n0 = len(self.tr.side)
        e, lo, hi = self.tr.bv(t)
        if len(self.tr.side) > n0:
            # new wrap variables: evaluate structurally instead
            return ev(t, self.m, self.tr)
        v = self.m.eval(e, model_completion=True)
        return z3.BitVecVal(v.as_long(), t.size())

    def decls(self): return self.m.decls()
    def __getitem__(self, d): return self.m[d]


def ev(t, m, tr):
    """concrete evaluation of t under the integer model"""
    subst = {}
    cache = {}

    def go(x):
        k = x.get_id()
        if k in cache: return cache[k]
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if z3.is_bv(x): r = z3.BitVecVal(m.eval(z3.Int("i:" + x.decl().name()), model_completion=True).as_long(), x.size())
                else: r = m.eval(x, model_completion=True)
            else: r = x
        else:
            ch = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                pre = "u:" if z3.is_int(x) else "p:" if z3.is_bool(x) else "f:"
                f = tr.fns.get(("u:" if z3.is_int(x) else "") + x.decl().name())
                if f is None: r = z3.BitVecVal(0, x.size()) if z3.is_bv(x) else z3.IntVal(0) if z3.is_int(x) else z3.BoolVal(False)
                else:
                    w = m.eval(f(*[c if z3.is_bool(c) else z3.IntVal(c.as_long()) for c in ch]), model_completion=True)
                    r = z3.BitVecVal(w.as_long() % (1 << x.size()), x.size()) if z3.is_bv(x) else w
            elif x.decl().name() in ("bv2int", "bv2nat", "ubv_to_int"): r = z3.IntVal(ch[0].as_long())
            else:
                r = z3.simplify(x.decl()(*ch))
        cache[k] = r
        return r
    return go(t)


LAST = [None]


def solve(formulas, timeout, keep_model=True):
    """-> (result, model or None); raises NotLinear"""
    tr = Tr()
    fs = []
    for f in formulas: tr.bound([f])
    tr.close()
    for f in formulas: fs.append(tr.b(f))
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(fs)
    s.add(tr.side)
    LAST[0] = s
    r = s.check()
    if r == z3.sat and tr.approx: return z3.unknown, None
    if r == z3.sat: return r, IntModel(tr, s.model())
    return r, None
