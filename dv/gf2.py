"""Exact decision procedure for equalities between bit-vector terms whose every bit is an XOR of variable bits
(xor, not, concat, extract, constant shifts, sign/zero extension, masking with constants, disjoint or).  Raises NotLinear otherwise."""
import z3


class NotLinear(Exception):
    pass


class GF2:
    def __init__(self): self.memo, self.vars, self.keep = {}, {}, []

    def bits(self, t):
        """list of bits, least significant first; a bit is an int mask over variable bits, bit 0 of the mask being the constant 1"""
        stack = [t]
        while stack:
            x = stack[-1]
            if x.get_id() in self.memo: stack.pop(); continue
            todo = [c for c in x.children() if z3.is_bv(c) and c.get_id() not in self.memo]
            if todo: stack.extend(todo); continue
            self.memo[x.get_id()] = self.one(x)
            self.keep.append(x)
            stack.pop()
        return self.memo[t.get_id()]

    def one(self, t):
        n = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return [(v >> i) & 1 for i in range(n)]
        k = t.decl().kind()
        c = [self.memo[x.get_id()] for x in t.children() if z3.is_bv(x)]
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.num_args(): raise NotLinear("function")
            key = t.decl().name()
            if key not in self.vars:
                self.vars[key] = sum(m for _, m in self.vars.values()) + 1
                self.vars[key] = (self.vars[key], n)
            b, _ = self.vars[key]
            return [1 << (b + i) for i in range(n)]
        if k == z3.Z3_OP_BXOR:
            r = list(c[0])
            for x in c[1:]: r = [a ^ b for a, b in zip(r, x)]
            return r
        if k == z3.Z3_OP_BNOT: return [a ^ 1 for a in c[0]]
        if k == z3.Z3_OP_CONCAT:
            r = []
            for x in reversed(c): r += x
            return r
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.decl().params()
            return c[0][l:h + 1]
        if k == z3.Z3_OP_ZERO_EXT: return c[0] + [0] * (n - len(c[0]))
        if k == z3.Z3_OP_SIGN_EXT: return c[0] + [c[0][-1]] * (n - len(c[0]))
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(t.arg(1)):
            s = min(t.arg(1).as_long(), n)
            return [0] * s + c[0][:n - s] if k == z3.Z3_OP_BSHL else c[0][s:] + [0] * s
        if k == z3.Z3_OP_BMUL and len(c) == 2 and z3.is_bv_value(t.arg(0)) and bin(t.arg(0).as_long()).count("1") == 1:
            s = t.arg(0).as_long().bit_length() - 1
            return [0] * s + c[1][:n - s]
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BADD):
            r = c[0]
            for x in c[1:]:
                o = []
                for a, b in zip(r, x):
                    if k == z3.Z3_OP_BAND:
                        if a in (0, 1): o.append(b if a else 0)
                        elif b in (0, 1): o.append(a if b else 0)
                        elif a == b: o.append(a)
                        else: raise NotLinear("and")
                    else:
                        if a == 0: o.append(b)
                        elif b == 0: o.append(a)
                        elif k == z3.Z3_OP_BOR and (a == b or a == 1): o.append(a)
                        elif k == z3.Z3_OP_BOR and b == 1: o.append(1)
                        else: raise NotLinear("or")
                r = o
            return r
        if k == z3.Z3_OP_ITE:
            q = t.arg(0)
            # one bit selected against a constant:  If(x[i] == 1, a, b) with constants a, b
            if z3.is_eq(q) and z3.is_bv(q.arg(0)) and q.arg(0).size() == 1:
                x, y = self.bits(q.arg(0))[0], self.bits(q.arg(1))[0]
                s = x ^ y ^ 1
                a, b = c[-2], c[-1]
                o = []
                for u, w in zip(a, b):
                    if u == w: o.append(u)
                    elif (u ^ w) == 1: o.append((s if u & 1 and not w & 1 else s ^ 1) ^ (w if u == (w ^ 1) and w not in (0, 1) else 0)) if u in (0, 1) and w in (0, 1) else self.bad()
                    else: raise NotLinear("ite")
                return o
        raise NotLinear(t.decl().name())

    def bad(self): raise NotLinear("ite")


def equal(a, b):
    """True/False (exact), or None when the terms are not of this form"""
    try:
        g = GF2()
        return g.bits(a) == g.bits(b)
    except NotLinear:
        return None


def proves(goal):
    if z3.is_and(goal): return all(proves(c) for c in goal.children())
    return z3.is_eq(goal) and z3.is_bv(goal.arg(0)) and equal(goal.arg(0), goal.arg(1)) is True
