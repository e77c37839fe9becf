"""C strings: for an array that holds text the verifier tracks the index `n` of its first NUL (n = size: no NUL inside, i.e. not terminated) and the index `z`
from which on all bytes are zero.  Functions that read a C string oblige it to be terminated inside its array; functions that write text oblige room for it."""
import re, z3
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from . import osm
from .osm import rec

TRUST = ["readlink, gethostname, strftime, localtime_r, snprintf, vsnprintf, strncpy, strlen, strrchr: ISO C / POSIX semantics (readlink does not terminate; strftime leaves the array "
         "indeterminate when the result does not fit; gethostname may leave a truncated name unterminated, and nothing on failure; (v)snprintf terminates whenever size > 0)",
         "std::string: a value; c_str() is its terminated text"]


def size_of(st, rid): return b64(st.mem[rid].size)


def put(st, rid, n, z=None): st.ghost["text"] = {**st.ghost.get("text", {}), rid: (z3.simplify(b64(n)), z3.simplify(b64(n if z is None else z)))}


def drop(st, rid):
    if rid in st.ghost.get("text", {}): st.ghost["text"] = {k: v for k, v in st.ghost["text"].items() if k != rid}


def get(ex, st, rid):
    """(n, z) of an array, or (None, None) when nothing is known about its content"""
    t = st.ghost.get("text", {}).get(rid)
    if t is not None: return t
    r = st.mem[rid]
    if r.init is not None and not callable(r.init) and not r.cells:
        ty, c = r.init
        if c.kind == "zero": return bv(0), bv(0)
        if c.kind == "bytes": return bv((c.val + b"\0").index(b"\0")), bv(len(c.val.rstrip(b"\0")))
    return None, None


def new_text(ex, st, name, n=None):
    """a terminated text of arbitrary length in an array that ends with its NUL"""
    n = ex.fresh("len_" + name) if n is None else n
    st.assume(z3.ULT(n, bv(1 << 31)))
    r = ex.new_reg(st, name, "cells", z3.simplify(n + 1))
    put(st, r.id, n, n)
    return Ptr(r.id, 0)


def length(ex, st, p, what, line=0):
    """the length of the C string at p, obliged to be terminated inside its array"""
    p = ex.resolve(st, p) if isinstance(p, Ptr) else p
    if not isinstance(p, Ptr) or p.r == 0:
        ex.oblige(st, f"{what} is not null", F, "memory", line)
        raise PathEnd()
    n, z = get(ex, st, p.r)
    if n is None:
        ex.oblige(st, f"{what} is terminated inside its array ({st.mem[p.r].name}: nothing is known about its content)", F, "memory", line)
        raise PathEnd()
    o = b64(p.off)
    ex.oblige(st, f"{what} is terminated inside its array", z3.And(z3.ULT(n, size_of(st, p.r)), z3.ULE(o, n)), "memory", line)
    st.assume(z3.ULT(n, size_of(st, p.r)), z3.ULE(o, n))
    return z3.simplify(n - o)


def literal(ex, st, p):
    s = osm.cstring(ex, st, p)
    return s


def room(ex, st, p, k, what, line=0):
    p = ex.resolve(st, p)
    ex.check_access(st, p, k, True, line, what)
    return p


def imin(a, b): return z3.simplify(z3.If(z3.ULE(a, b), a, b))


def written(ex, st, p, n_new, upto):
    """bytes [off, off+upto) were written; the text now has its first NUL at n_new"""
    _, z = get(ex, st, p.r)
    e = b64(p.off) + b64(upto)
    z = size_of(st, p.r) if z is None else z
    put(st, p.r, n_new, z3.If(z3.ULE(z, e), e, z))


def at(ex, st, p):
    if not (isinstance(p.off, int) and p.off == 0 or z3.is_true(z3.simplify(b64(p.off) == 0))): raise Unsupported("text written into the middle of an array")


def terminated_at(ex, st, rid, k):
    """after [0,k) was filled with non-NUL bytes: the first NUL is at k if the byte there is still zero, else somewhere after"""
    _, z = get(ex, st, rid)
    f = ex.fresh("first_nul")
    S = size_of(st, rid)
    st.assume(z3.UGE(f, k), z3.ULE(f, S))
    return z3.If(k == S, S, z3.If(z3.ULE(z, k), k, f)) if z is not None else z3.If(k == S, S, f)


def fmt_parts(s):
    """format string -> list of literal strings and conversions (flags, precision, conv)"""
    o, i = [], 0
    for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([diouxXeEfFgGaAcspn%])", s):
        if m.start() > i: o.append(s[i:m.start()])
        o.append("%" if m.group(5) == "%" else (m.group(0), m.group(2), m.group(3), m.group(5)))
        i = m.end()
    if i < len(s): o.append(s[i:])
    return o


def formatted(ex, st, fp, args, line):
    """the tokens a formatted output produces; every %s argument is obliged to be terminated"""
    s = literal(ex, st, fp)
    if s is None: raise Unsupported("a computed format string")
    out, k = [], 0
    for x in fmt_parts(s):
        if isinstance(x, str):
            out.append(x)
            continue
        if k >= len(args):
            ex.oblige(st, "every conversion of the format has an argument", F, "memory", line)
            raise PathEnd()
        a, k = args[k], k + 1
        if x[3] == "s":
            ex.oblige(st, "a %s argument is a text", isinstance(a, Ptr), "memory", line)
            t = literal(ex, st, a)
            out.append(t if t is not None else ("text", a, length(ex, st, a, "the text given to %s", line)))
        else: out.append(("arg", x, a))
    m = []
    for t in out:
        if isinstance(t, str) and m and isinstance(m[-1], str): m[-1] += t
        elif t != "": m.append(t)
    return m


def install(ex, on=None):
    on = ex.on
    hook = ex.access_hook

    def access(ex, st, p, ty, w, line):
        if p.r in st.ghost.get("text", {}):
            n, z = st.ghost["text"][p.r]
            o, S = b64(p.off), size_of(st, p.r)
            if w is None and ty.size == 1:
                b = ex.fresh("ch", 8)
                st.assume(z3.Implies(z3.ULT(o, n), b != 0), z3.Implies(z3.And(o == n, z3.ULT(n, S)), b == 0), z3.Implies(z3.And(z3.UGE(o, z)), b == 0))
                rec(st, "char", p, b)
                return b
            if w is not None and w[1] == 1 and z3.is_bv_value(z3.simplify(w[0])) and z3.simplify(w[0]).as_long() == 0:
                put(st, p.r, z3.If(z3.ULT(o, n), o, n), z3.If(z == o + 1, o, z))
                return True
            if w is not None: drop(st, p.r)
        elif w is not None and w[1] == 1 and p.r in st.mem and z3.is_bv_value(z3.simplify(w[0])) and z3.simplify(w[0]).as_long() == 0 and st.ghost.get("track", {}).get(p.r):
            f = ex.fresh("first_nul")
            st.assume(z3.ULE(f, b64(p.off)))
            put(st, p.r, f, size_of(st, p.r))
            return True
        return hook(ex, st, p, ty, w, line) if hook else None
    ex.access_hook = access
    ms = ex.memset

    def memset(st, dst, val, n, line=0):
        d = ex.resolve(st, dst)
        if d.r and z3.is_bv_value(z3.simplify(val)) and z3.simplify(val).as_long() == 0 and st.mem[d.r].kind != "elems" and ex.valid(st, z3.And(b64(d.off) == 0, b64(n) == size_of(st, d.r))):
            ex.check_access(st, d, n, True, line, "memset")
            put(st, d.r, bv(0), bv(0))
            return
        drop(st, d.r)
        ms(st, dst, val, n, line)
    ex.memset = memset

    def strlen(ex, st, a, I): return length(ex, st, a[0], "the text given to strlen", I.line)
    on(r"^strlen$", strlen)

    def strrchr(ex, st, a, I):
        n = length(ex, st, a[0], "the text given to strrchr", I.line)
        i = ex.fresh("found")
        hit = ex.fresh("occurs", 1)
        p = ex.resolve(st, a[0])
        return osm.alts(ex, st, [(z3.And(hit, z3.ULT(i, n)), lambda s: (rec(s, "strrchr", a[0], i), Ptr(p.r, z3.simplify(b64(p.off) + i)))[1]), (z3.Not(hit), lambda s: (rec(s, "strrchr", a[0], None), Ptr(0, bv(0)))[1])])
    on(r"^(strrchr|strchr)$", strrchr)

    def strncpy(ex, st, a, I):
        d = room(ex, st, a[0], a[2], "strncpy destination", I.line)
        at(ex, st, d)
        Ls = length(ex, st, a[1], "the text given to strncpy", I.line)
        k = b64(a[2])
        n = z3.If(z3.ULT(Ls, k), Ls, terminated_at(ex, st, d.r, k))
        _, z = get(ex, st, d.r)
        z = size_of(st, d.r) if z is None else z
        put(st, d.r, n, z3.If(z3.ULE(z, k), imin(Ls, k), z))
        rec(st, "copy", d.r, a[1], imin(Ls, k))
        return a[0]
    on(r"^strncpy$", strncpy)

    def readlink(ex, st, a, I):
        d = room(ex, st, a[1], a[2], "readlink destination", I.line)
        at(ex, st, d)
        k = ex.fresh("link_len")
        bad = ex.fresh("readlink_fails", 1)

        def ok(s):
            n = terminated_at(ex, s, d.r, k)
            written(ex, s, d, n, k)
            rec(s, "readlink", d.r, k)
            return k
        return osm.alts(ex, st, [(z3.And(z3.Not(bad), z3.ULE(k, b64(a[2])), z3.UGE(k, 1), z3.ULT(k, bv(1 << 32))), ok), (bad, lambda s: (rec(s, "readlink", d.r, None), bv(-1))[1])])
    on(r"^readlink$", readlink)

    def hostname(ex, st, a, I):
        d = room(ex, st, a[0], a[1], "gethostname destination", I.line)
        at(ex, st, d)
        L, k = ex.fresh("host_len"), b64(a[1])

        def fits(s):
            written(ex, s, d, L, z3.simplify(L + 1))
            return bv(0, 32)

        def cut(s):
            n = terminated_at(ex, s, d.r, k)
            written(ex, s, d, n, k)
            return bv(-1, 32)
        bad = ex.fresh("gethostname_fails", 1)
        return osm.alts(ex, st, [(z3.And(z3.Not(bad), z3.ULT(L, k)), fits), (z3.And(z3.Not(bad), z3.UGE(L, k), z3.ULT(L, 65)), cut), (bad, lambda s: bv(-1, 32))])
    on(r"^gethostname$", hostname)

    def strftime(ex, st, a, I):
        d = room(ex, st, a[0], a[1], "strftime destination", I.line)
        at(ex, st, d)
        length(ex, st, a[2], "the time format", I.line)
        L, k = ex.fresh("time_len"), b64(a[1])

        def fits(s):
            written(ex, s, d, L, z3.simplify(L + 1))
            rec(s, "strftime", d.r, a[2], a[3], True)
            return L

        def cut(s):
            drop(s, d.r)
            s.ghost["track"] = {**s.ghost.get("track", {}), d.r: True}
            rec(s, "strftime", d.r, a[2], a[3], False)
            return bv(0)
        lo = ex.fresh("fits", 1)
        return osm.alts(ex, st, [(z3.And(lo, z3.ULT(L, k)), fits), (z3.Not(lo), cut)])
    on(r"^strftime$", strftime)

    def snprintf(ex, st, a, I):
        d = room(ex, st, a[0], a[1], "snprintf destination", I.line)
        at(ex, st, d)
        tok = formatted(ex, st, a[2], a[3:], I.line)
        L, k = ex.fresh("printed"), b64(a[1])
        st.assume(z3.ULT(L, bv(1 << 31)))
        if all(isinstance(t, str) for t in tok): st.assume(L == sum(map(len, tok)))
        st.assume(z3.UGE(L, sum((bv(len(t)) if isinstance(t, str) else t[2] if t[0] == "text" else bv(0) for t in tok), bv(0))))
        written(ex, st, d, z3.If(z3.ULT(L, k), L, k - 1), z3.If(z3.ULT(L, k), L + 1, k))
        rec(st, "print", d.r, tok, L, k)
        return z3.Extract(31, 0, L)
    on(r"^(std::)?snprintf$", snprintf)
