"""Operating-system model used by the system-call contracts: every call is recorded with its arguments, its result is arbitrary
(success or failure with an arbitrary errno), descriptors carry their flags, and the set of open descriptors is tracked."""
import z3
from dv.exec import *
from dv.exec import _IntTy, _PtrTy

TRUST = ["system calls (socket, close, fcntl, bind, listen, connect, accept, shutdown, get/setsockopt, getsockname, getpeername, pipe2, read, write, sendto, recvfrom): "
         "succeed or return -1 with errno set, with their POSIX effect on the descriptor named; the kernel itself is not verified",
         "inet_pton/inet_ntop: POSIX conversion; inet_ntop writes at most size bytes including the terminator (INET_ADDRSTRLEN suffices) or fails",
         "disk_log/console_log only produce output (and may change errno)"]
F_GETFD, F_SETFD, F_GETFL, F_SETFL = 1, 2, 3, 4
O_NONBLOCK, FD_CLOEXEC, O_CLOEXEC = 0o4000, 1, 0o2000000


def find(m, prefix):
    c = [d for d in m.bydem if d == prefix or d.startswith(prefix + "(")]
    c = [d for d in c if not m.fn(m.bydem[d]).decl]
    if len(c) != 1: raise Unsupported(f"{len(c)} functions named {prefix}")
    return c[0]


def cstring(ex, st, p):
    """the text of a constant string, or None"""
    if not isinstance(p, Ptr) or p.r == 0: return None
    r = st.mem.get(p.r)
    if r is None or r.init is None or callable(r.init) or not isinstance(p.off, int): return None
    t, c = r.init
    if c.kind != "bytes": return None if c.kind != "zero" else ""
    b = c.val[p.off:]
    return b.split(b"\0")[0].decode("utf-8", "replace")


def fmt_args(s):
    import re
    return [m.group(0) for m in re.finditer(r"%[-+ #0]*(\*|\d+)?(\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([diouxXeEfFgGaAcspn%])", s) if m.group(5) != "%"]


def errno_reg(ex, st):
    if "errno" not in st.ghost:
        r = ex.new_reg(st, "errno", "cells", 4)
        st.ghost["errno"] = r.id
    return st.ghost["errno"]


def get_errno(ex, st): return ex.load(st, Ptr(errno_reg(ex, st)), _IntTy(32))


def set_errno(ex, st, failed):
    rid = errno_reg(ex, st)
    old = get_errno(ex, st)
    e = ex.fresh("errno", 32)
    st.assume(e > 0, e < 4096)
    v = z3.simplify(z3.If(failed, e, old))
    ex.store_cell(st, rid, 0, 4, v)
    return v


def rec(st, name, *a): st.trace.append((name,) + a)


def calls(st, name=None): return [t for t in st.trace if (t[0] == name if isinstance(name, str) else name is None or t[0] in name)]


def snapshot(ex, st, p, n, line=0):
    """n bytes at p, little endian"""
    p = ex.resolve(st, p)
    if p.r == 0: return None
    ex.check_access(st, p, n, False, line, "buffer given to the system")
    b = [ex.load(st, Ptr(p.r, add64(p.off, k)), _IntTy(8), line) for k in range(n)]
    return z3.simplify(b[0] if n == 1 else z3.Concat(*reversed(b)))


def overwrite(ex, st, p, n, name, line=0):
    p = ex.resolve(st, p)
    ex.check_access(st, p, n, True, line, "buffer filled by the system")
    v = ex.fresh(name, 8 * n)
    for k in range(n): ex.store(st, Ptr(p.r, add64(p.off, k)), z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)), 1, line)
    return v


def install_errno(ex):
    ex.on(r"^__errno_location$", lambda ex, st, a, I: Ptr(errno_reg(ex, st)))


def install_log(ex, strict=True):
    def log(ex, st, a, I):
        s = cstring(ex, st, a[1])
        if strict and s is not None:
            n = len(fmt_args(s))
            ex.oblige(st, "a log call supplies every argument its format names", T if len(a) - 2 >= n else F, "callee precondition", I.line)
        set_errno(ex, st, ex.fresh("log_fails", 1))
        return None
    log.label = "disk_log"
    ex.on(r"^cyclone::(disk_log|console_log)\(", log)


def ret32(ex, st, name, ok=None, lo=0):
    """-1 or success"""
    r = ex.fresh(name, 32)
    if ok is not None: st.assume(z3.Or(r == bv(-1, 32), r == bv(ok, 32)))
    else: st.assume(z3.Or(r == bv(-1, 32), r >= lo))
    set_errno(ex, st, r == bv(-1, 32))
    return r


def same(ex, st, a, b):
    g = z3.simplify(a == b)
    if z3.is_true(g): return True
    if z3.is_false(g): return False
    return ex.valid(st, a == b)


class Fd:
    """ghost descriptor"""
    def __init__(self, fd, fl, cloexec): self.fd, self.fl, self.fdflags = fd, fl, cloexec
    def upd(self, **k):
        n = Fd(self.fd, self.fl, self.fdflags)
        for a, b in k.items(): setattr(n, a, b)
        return n


def open_fds(st): return st.ghost.get("fds", ())


def new_fd(ex, st, name, fl=0, fdflags=0, fd=None):
    f = ex.fresh(name, 32) if fd is None else fd
    st.assume(f >= 0, *[f != x.fd for x in open_fds(st)])
    st.ghost["fds"] = open_fds(st) + (Fd(f, bv(fl, 32) if isinstance(fl, int) else fl, bv(fdflags, 32) if isinstance(fdflags, int) else fdflags),)
    return f


def lookup(ex, st, fd):
    for i, x in enumerate(open_fds(st)):
        if same(ex, st, x.fd, fd): return i
    return None


def given_fd(ex, st, name):
    return new_fd(ex, st, name, ex.fresh(name + "_fl", 32), ex.fresh(name + "_fdfl", 32))


def set_fd(st, i, x):
    l = list(open_fds(st)); l[i] = x
    st.ghost["fds"] = tuple(l)


def alts(ex, st, conds):
    """[(state, value)] for [(cond, fn(state) -> value)]"""
    out = []
    live = [(c, f) for c, f in conds if ex.feasible(st, c)]
    if not live: raise PathEnd()
    for k, (c, f) in enumerate(live):
        s = st if k == len(live) - 1 else st.clone()
        s.assume(c)
        out.append((s, f(s)))
    return Alts(out)


def install_sockets(ex):
    install_errno(ex)
    install_log(ex)
    m1 = bv(-1, 32)

    def creating(name, record):
        def h(ex, st, a, I):
            def bad(s):
                set_errno(ex, s, T)
                record(s, a, m1, I)
                return m1
            def good(s):
                f = new_fd(ex, s, name)
                record(s, a, f, I)
                return f
            ok = ex.fresh(name + "_ok", 1)
            return alts(ex, st, [(z3.Not(ok), bad), (ok, good)])
        h.label = name
        return h
    ex.on(r"^socket$", creating("socket", lambda s, a, r, I: rec(s, "socket", a[0], a[1], a[2], r)))

    def rec_accept(s, a, r, I):
        addr = None
        if not is_null(a[1]):
            # addrlen in/out
            n = snapshot(ex, s, a[2], 4, I.line)
            ex.oblige(s, "accept is told the size of the address buffer", n == 16, "callee precondition", I.line)
            addr = overwrite(ex, s, a[1], 16, "peer", I.line) if not same(ex, s, r, m1) else None
        rec(s, "accept", a[0], addr, r)
    ex.on(r"^accept$", creating("accept", rec_accept))

    def close(ex, st, a, I):
        i = lookup(ex, st, a[0])
        ex.oblige(st, "only an open descriptor is closed (once)", T if i is not None else F, "resource", I.line)
        if i is None: raise PathEnd()
        st.ghost["fds"] = open_fds(st)[:i] + open_fds(st)[i + 1:]
        r = ret32(ex, st, "close", 0)
        rec(st, "close", a[0], r)
        return r
    close.label = "close"
    ex.on(r"^close$", close)

    def fcntl(ex, st, a, I):
        cmd = cval(z3.simplify(a[1])) if is_c(z3.simplify(a[1])) else None
        i = lookup(ex, st, a[0])
        if i is None or cmd not in (1, 2, 3, 4): raise Unsupported(f"fcntl {cmd} on unknown descriptor")
        x = open_fds(st)[i]
        ok = ex.fresh("fcntl_ok", 1)

        def bad(s):
            set_errno(ex, s, T)
            rec(s, "fcntl", a[0], cmd, m1)
            return m1

        def good(s):
            if cmd in (F_GETFL, F_GETFD):
                v = x.fl if cmd == F_GETFL else x.fdflags
                s.assume(v >= 0)
                rec(s, "fcntl", a[0], cmd, v)
                return v
            set_fd(s, i, x.upd(fl=a[2]) if cmd == F_SETFL else x.upd(fdflags=a[2]))
            r = bv(0, 32)
            rec(s, "fcntl", a[0], cmd, r)
            return r
        return alts(ex, st, [(z3.Not(ok), bad), (ok, good)])
    fcntl.label = "fcntl"
    ex.on(r"^fcntl(64)?$", fcntl)

    def addr_call(name):
        def h(ex, st, a, I):
            ex.oblige(st, f"{name} is told the size of the address", a[2] == 16, "callee precondition", I.line)
            v = snapshot(ex, st, a[1], 16, I.line)
            r = ret32(ex, st, name, 0)
            rec(st, name, a[0], v, r, get_errno(ex, st))
            return r
        h.label = name
        return h
    ex.on(r"^bind$", addr_call("bind"))
    ex.on(r"^connect$", addr_call("connect"))

    def simple(name, n):
        def h(ex, st, a, I):
            r = ret32(ex, st, name, 0)
            rec(st, name, *a[:n], r)
            return r
        h.label = name
        return h
    ex.on(r"^listen$", simple("listen", 2))
    ex.on(r"^shutdown$", simple("shutdown", 2))

    def setsockopt(ex, st, a, I):
        n = ex.concretize(st, a[4])
        if n is None or n > 64: raise Unsupported("symbolic option length")
        v = snapshot(ex, st, a[3], n, I.line)
        r = ret32(ex, st, "setsockopt", 0)
        rec(st, "setsockopt", a[0], a[1], a[2], n, v, r)
        return r
    setsockopt.label = "setsockopt"
    ex.on(r"^setsockopt$", setsockopt)

    def getsockopt(ex, st, a, I):
        n = snapshot(ex, st, a[4], 4, I.line)
        ex.oblige(st, "getsockopt is told the size of its buffer", n == 4, "callee precondition", I.line)
        ok = ex.fresh("getsockopt_ok", 1)

        def bad(s):
            e = set_errno(ex, s, T)
            rec(s, "getsockopt", a[0], a[1], a[2], None, m1, e)
            return m1

        def good(s):
            v = overwrite(ex, s, a[3], 4, "so_error", I.line)
            rec(s, "getsockopt", a[0], a[1], a[2], v, bv(0, 32), None)
            return bv(0, 32)
        return alts(ex, st, [(z3.Not(ok), bad), (ok, good)])
    getsockopt.label = "getsockopt"
    ex.on(r"^getsockopt$", getsockopt)

    def name_call(name):
        def h(ex, st, a, I):
            n = snapshot(ex, st, a[2], 4, I.line)
            c = ex.concretize(st, n)
            if c is None: raise Unsupported("symbolic address length")
            ex.oblige(st, f"{name} is given room for an address", T if c >= 16 else F, "callee precondition", I.line)
            ex.check_access(st, ex.resolve(st, a[1]), c, True, I.line, f"{name} buffer")
            ok = ex.fresh(name + "_ok", 1)

            def bad(s):
                set_errno(ex, s, T)
                rec(s, name, a[0], None, m1)
                return m1

            def good(s):
                v = overwrite(ex, s, a[1], 16, name, I.line)
                rec(s, name, a[0], v, bv(0, 32))
                return bv(0, 32)
            return alts(ex, st, [(z3.Not(ok), bad), (ok, good)])
        h.label = name
        return h
    ex.on(r"^getsockname$", name_call("getsockname"))
    ex.on(r"^getpeername$", name_call("getpeername"))

    def pipe2(ex, st, a, I):
        fl = a[1] if len(a) > 1 else bv(0, 32)
        c = ex.concretize(st, fl)
        if c is None: raise Unsupported("symbolic pipe flags")
        ok = ex.fresh("pipe_ok", 1)

        def bad(s):
            set_errno(ex, s, T)
            rec(s, "pipe", None, None, m1)
            return m1

        def good(s):
            f = [new_fd(ex, s, n, c & O_NONBLOCK, FD_CLOEXEC if c & O_CLOEXEC else 0) for n in ("pipe_r", "pipe_w")]
            for k in (0, 1): ex.store(s, Ptr(a[0].r, add64(a[0].off, 4 * k)), f[k], 4, I.line)
            rec(s, "pipe", f[0], f[1], bv(0, 32))
            return bv(0, 32)
        return alts(ex, st, [(z3.Not(ok), bad), (ok, good)])
    pipe2.label = "pipe2"
    ex.on(r"^pipe2?$", pipe2)

    def xfer(name, write, k):
        def h(ex, st, a, I):
            n = a[2]
            if not (z3.is_bv_value(n) and n.as_long() == 0) and not ex.valid(st, n == 0):
                ex.check_access(st, ex.resolve(st, a[1]), ex.sz(n), write, I.line, f"{name} buffer")
            r = ex.fresh(name)
            st.assume(z3.Or(r == bv(-1), z3.ULE(r, n)))
            set_errno(ex, st, r == bv(-1))
            extra = ()
            if k == "to":
                extra = (a[3], snapshot(ex, st, a[4], 16, I.line), a[5])
            if k == "from":
                ln = snapshot(ex, st, a[5], 4, I.line)
                ex.oblige(st, "recvfrom is told the size of the address buffer", ln == 16, "callee precondition", I.line)
                extra = (a[3], overwrite(ex, st, a[4], 16, "peer", I.line))
            if write and a[1].r:
                w = st.wreg(a[1].r)
                if w.kind != "bytes": raise Unsupported("read into an object")
                src = CBase(f"incoming!{next(ex.fresh_n)}")
                w.content = CCopy(w.content, a[1].off, z3.simplify(z3.If(r == bv(-1), bv(0), r)), src, 0)
            rec(st, name, a[0], a[1], n, r, get_errno(ex, st), *extra)
            return r
        h.label = name
        return h
    ex.on(r"^read$", xfer("read", True, ""))
    ex.on(r"^write$", xfer("write", False, ""))
    ex.on(r"^sendto$", xfer("sendto", False, "to"))
    ex.on(r"^recvfrom$", xfer("recvfrom", True, "from"))

    def swap(n):
        return lambda ex, st, a, I: z3.simplify(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a[0]) for k in range(n // 8)]))
    ex.on(r"^(htons|ntohs)$", swap(16))
    ex.on(r"^(htonl|ntohl)$", swap(32))
    B32, B64, B8 = z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(8)

    def pton(ex, st, a, I):
        ex.oblige(st, "only IPv4 text is converted", a[0] == 2, "callee precondition", I.line)
        r = ex.fresh("inet_pton", 32)
        ok, addr = st.ghost.setdefault("text", (ex.fresh("text_valid", 1), ex.fresh("text_addr", 32)))
        st.assume(z3.Or(r == 1, r == 0, r == m1), (r == 1) == ok)
        set_errno(ex, st, r == m1)
        p = ex.resolve(st, a[2])
        ex.check_access(st, p, 4, True, I.line, "inet_pton destination")
        old = ex.load(st, p, _IntTy(32), I.line)
        ex.store(st, p, z3.simplify(z3.If(ok, addr, old)), 4, I.line)
        rec(st, "inet_pton", a[1], r)
        return r
    pton.label = "inet_pton"
    ex.on(r"^inet_pton$", pton)
    ex.textlen = z3.Function("ip_text_length", B32, B64)
    ex.textchr = z3.Function("ip_text", B32, B64, B8)

    def ntop(ex, st, a, I):
        ex.oblige(st, "only IPv4 addresses are converted", a[0] == 2, "callee precondition", I.line)
        v = snapshot(ex, st, a[1], 4, I.line)
        n = z3.ZeroExt(32, a[3])
        c = ex.concretize(st, n)
        ex.check_access(st, ex.resolve(st, a[2]), c if c is not None else n, True, I.line, "inet_ntop buffer")
        L = ex.textlen(v)
        st.assume(z3.UGE(L, 7), z3.ULE(L, 15))
        fits = z3.ULT(L, n)

        def good(s):
            p = ex.resolve(s, a[2])
            r = s.wreg(p.r)
            if r.kind == "bytes":
                r.content = CCopy(r.content, p.off, z3.simplify(L + 1), CFun(lambda i: z3.If(i == L, bv(0, 8), ex.textchr(v, i))), 0)
            else:
                for k in range(min(16, c or 16)):
                    old = ex.load(s, Ptr(p.r, add64(p.off, k)), _IntTy(8), I.line)
                    ex.store(s, Ptr(p.r, add64(p.off, k)), z3.simplify(z3.If(z3.ULT(bv(k), L), ex.textchr(v, bv(k)), z3.If(L == k, bv(0, 8), old))), 1, I.line)
            rec(s, "inet_ntop", v, T)
            return a[2]

        def bad(s):
            set_errno(ex, s, T)
            rec(s, "inet_ntop", v, F)
            return NULL
        return alts(ex, st, [(fits, good), (z3.Not(fits), bad)])
    ntop.label = "inet_ntop"
    ex.on(r"^inet_ntop$", ntop)
