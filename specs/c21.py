"""C21  socket helpers pass exactly the requested options and report failures"""
import z3, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy
from . import osm
from .osm import calls, find, snapshot, open_fds

M = L = None
TRUSTED = libc.TRUST_TEXT + osm.TRUST
ASSUMPTIONS = ["descriptors handed to the helpers are valid non-negative integers",
               "resolve_hostname and check_connect are not under contract"]
SRC = ["source/cyCore/core/cyc_socket_api.cpp", "source/cyEvent/event/cye_pipe.cpp"]
NS = "cyclone::socket_api::"
m1 = bv(-1, 32)


def build():
    global M, L
    M, L = bld.module(SRC)


def start(v, name, tag=""):
    ex = v.exec(M, name + tag)
    libc.install(ex)
    osm.install_sockets(ex)
    return ex, State()


def addr_in(ex, st, name, const=True):
    r = ex.new_reg(st, name, "cells", 16)
    for k in range(16): ex.store_cell(st, r.id, k, 1, ex.fresh(f"{name}{k}", 8))
    r = st.wreg(r.id)
    r.const = const
    return r.id, snapshot(ex, st, Ptr(r.id), 16)


def one(ex, s, name, what, *preds):
    """exactly one call of this kind was made, and it satisfies every predicate; returns it"""
    c = calls(s, name)
    ex.oblige(s, f"{what}: exactly one {name} call", T if len(c) == 1 else F, "postcondition")
    if len(c) != 1: raise PathEnd()
    for t, f in preds: ex.oblige(s, f"{what}: {t}", f(c[0]), "postcondition")
    return c[0]


def others(ex, s, allowed):
    bad = [t[0] for t in s.trace if t[0] not in allowed]
    ex.oblige(s, f"no other system call is made", T if not bad else F, "frame")


def t_create(v):
    ex, st = start(v, "create_socket")
    udp = ex.fresh("udp", 1)
    v.cover(ex, st)

    def ret(s, r):
        c = one(ex, s, "socket", "create_socket", ("IPv4", lambda c: c[1] == 2), ("type follows the request", lambda c: c[2] == z3.If(udp, bv(2, 32), bv(1, 32))),
                ("protocol follows the request", lambda c: z3.Or(c[3] == 0, c[3] == z3.If(udp, bv(17, 32), bv(6, 32)))), ("the result is the system's", lambda c: r == c[4]))
        others(ex, s, ("socket",))
    ex.run(st, find(M, NS + "create_socket"), [udp], ret)


def t_close(v):
    ex, st = start(v, "close_socket")
    fd = osm.given_fd(ex, st, "s")
    v.cover(ex, st)

    def ret(s, r):
        one(ex, s, "close", "close_socket", ("the given descriptor", lambda c: c[1] == fd))
        others(ex, s, ("close",))
    ex.run(st, find(M, NS + "close_socket"), [fd], ret)


def t_flag(v, fn, field, bit):
    ex, st = start(v, fn)
    fd = osm.given_fd(ex, st, "s")
    on = ex.fresh("enable", 1)
    x0 = open_fds(st)[0]
    v.cover(ex, st)

    def ret(s, r):
        x = open_fds(s)[0]
        f0, f1 = getattr(x0, field), getattr(x, field)
        want = z3.If(on, f0 | bit, f0 & ~bv(bit, 32))
        failed = [c for c in calls(s, "fcntl") if is_c(c[3]) and cval(c[3]) == 0xFFFFFFFF]
        ex.oblige(s, f"{fn}: success is reported exactly when every system call succeeded", r == (F if failed else T), "postcondition")
        ex.oblige(s, f"{fn}: on success exactly the requested flag is set or cleared", z3.Implies(r, f1 == want), "postcondition")
        ex.oblige(s, f"{fn}: on failure the flags are untouched", z3.Implies(z3.Not(r), f1 == f0), "postcondition")
        o = "fdflags" if field == "fl" else "fl"
        ex.oblige(s, f"{fn}: nothing else about the descriptor changes", getattr(x, o) == getattr(x0, o), "frame")
        others(ex, s, ("fcntl",))
    ex.run(st, find(M, NS + fn), [fd, on], ret)


def t_addr(v, fn):
    ex, st = start(v, fn)
    fd = osm.given_fd(ex, st, "s")
    a, val = addr_in(ex, st, "addr")
    v.cover(ex, st)

    def ret(s, r):
        c = one(ex, s, fn, fn, ("the given descriptor", lambda c: c[1] == fd), ("the given address", lambda c: c[2] == val))
        if fn == "bind": ok = c[3] != m1
        else: ok = z3.Or(c[3] != m1, c[4] == 115, c[4] == 4, c[4] == 106)      # EINPROGRESS, EINTR, EISCONN: the attempt is under way
        ex.oblige(s, f"{fn}: reports exactly whether the system accepted the request", r == ok, "postcondition")
        others(ex, s, (fn,))
    ex.run(st, find(M, NS + fn), [fd, Ptr(a)], ret)


def t_simple(v, fn, extra):
    ex, st = start(v, fn)
    fd = osm.given_fd(ex, st, "s")
    v.cover(ex, st)

    def ret(s, r):
        c = one(ex, s, fn, fn, ("the given descriptor", lambda c: c[1] == fd), *extra)
        ex.oblige(s, f"{fn}: reports exactly whether the system call succeeded", r == (c[3] != m1), "postcondition")
        others(ex, s, (fn,))
    ex.run(st, find(M, NS + fn), [fd], ret)


def t_accept(v):
    for given in (True, False):
        ex, st = start(v, "accept", " (address wanted)" if given else " (no address)")
        fd = osm.given_fd(ex, st, "s")
        a, val = addr_in(ex, st, "addr", False)
        v.cover(ex, st)

        def ret(s, r):
            c = one(ex, s, "accept", "accept", ("the given descriptor", lambda c: c[1] == fd), ("the result is the system's", lambda c: r == c[3]))
            now = snapshot(ex, s, Ptr(a), 16)
            if given: ex.oblige(s, "accept: the peer's address is delivered", z3.Implies(r != m1, now == c[2]) if c[2] is not None else r == m1, "postcondition")
            if not given: ex.oblige(s, "accept: no address is asked for", T if c[2] is None else F, "postcondition")
            others(ex, s, ("accept",))
        ex.run(st, find(M, NS + "accept"), [fd, Ptr(a) if given else NULL], ret)


def t_setsockopt(v):
    ex, st = start(v, "setsockopt")
    fd = osm.given_fd(ex, st, "s")
    for n in (1, 4, 8, 16):
        r0 = ex.new_reg(st, f"opt{n}", "cells", n)
        for k in range(n): ex.store_cell(st, r0.id, k, 1, ex.fresh(f"o{k}", 8))
        st.wreg(r0.id).const = True
        val = snapshot(ex, st, Ptr(r0.id), n)
        lev, opt = ex.fresh("level", 32), ex.fresh("optname", 32)

        def ret(s, r):
            c = one(ex, s, "setsockopt", "setsockopt", ("the given descriptor", lambda c: c[1] == fd), ("the given level", lambda c: c[2] == lev), ("the given option", lambda c: c[3] == opt),
                    ("the given value, in full", lambda c: z3.And(z3.BoolVal(c[4] == n), c[5] == val) if c[4] == n else F))
            ex.oblige(s, "setsockopt: reports exactly whether the system accepted it", r == (c[6] == 0), "postcondition")
            others(ex, s, ("setsockopt",))
        s0 = st.clone()
        ex.run(s0, find(M, NS + "setsockopt"), [fd, lev, opt, Ptr(r0.id), bv(n)], ret)


def t_option(v, fn, level, opt, value, nargs):
    ex, st = start(v, fn)
    fd = osm.given_fd(ex, st, "s")
    on, lt = ex.fresh("on", 1), ex.fresh("linger_time", 16)
    v.cover(ex, st)

    def ret(s, r):
        want, n = value(on, lt)
        c = one(ex, s, "setsockopt", fn, ("the given descriptor", lambda c: c[1] == fd), (f"level {level}", lambda c: c[2] == level), (f"option {opt}", lambda c: c[3] == opt),
                ("exactly the requested value", lambda c: c[5] == want if c[4] == n else F))
        ex.oblige(s, f"{fn}: reports exactly whether the system accepted it", r == (c[6] == 0), "postcondition")
        others(ex, s, ("setsockopt",))
    ex.run(st, find(M, NS + fn), [fd, on] + ([lt] if nargs == 3 else []), ret)


def boolval(on, lt): return z3.If(on, bv(1, 32), bv(0, 32)), 4
def lingerval(on, lt): return z3.If(on, z3.Concat(z3.ZeroExt(16, lt), bv(1, 32)), bv(0, 64)), 8


def t_error(v):
    ex, st = start(v, "get_socket_error")
    fd = osm.given_fd(ex, st, "s")
    v.cover(ex, st)

    def ret(s, r):
        c = one(ex, s, "getsockopt", "get_socket_error", ("the given descriptor", lambda c: c[1] == fd), ("SOL_SOCKET", lambda c: c[2] == 1), ("SO_ERROR", lambda c: c[3] == 4))
        ex.oblige(s, "get_socket_error: the pending error, or the reason it could not be read", r == (c[4] if c[4] is not None else c[6]), "postcondition")
        others(ex, s, ("getsockopt",))
    ex.run(st, find(M, NS + "get_socket_error"), [fd], ret)


def t_name(v, fn):
    ex, st = start(v, fn)
    fd = osm.given_fd(ex, st, "s")
    a, val = addr_in(ex, st, "addr", False)
    v.cover(ex, st)

    def ret(s, r):
        c = one(ex, s, fn, fn, ("the given descriptor", lambda c: c[1] == fd))
        ok = c[2] is not None
        ex.oblige(s, f"{fn}: reports exactly whether the system call succeeded", r == (T if ok else F), "postcondition")
        now = snapshot(ex, s, Ptr(a), 16)
        ex.oblige(s, f"{fn}: delivers exactly the system's address; on failure leaves the caller's alone", now == (c[2] if ok else val), "postcondition")
        others(ex, s, (fn,))
    ex.run(st, find(M, NS + fn), [fd, Ptr(a)], ret)


def t_pton(v):
    ex, st = start(v, "inet_pton")
    txt = ex.new_reg(st, "text", "bytes", bv(64))
    txt.const = True
    a = ex.new_reg(st, "in_addr", "cells", 4)
    a0 = ex.load(st, Ptr(a.id), _IntTy(32))
    v.cover(ex, st)

    def ret(s, r):
        one(ex, s, "inet_pton", "inet_pton", ("the given text", lambda c: T if c[1].r == txt.id and is_c(c[1].off) and cval(c[1].off) == 0 else F))
        ok, addr = s.ghost["text"]
        ex.oblige(s, "inet_pton: reports exactly whether the text is an address", r == ok, "postcondition")
        ex.oblige(s, "inet_pton: the number is the text's, else untouched", ex.load(s, Ptr(a.id), _IntTy(32)) == z3.If(ok, addr, a0), "postcondition")
    ex.run(st, find(M, NS + "inet_pton"), [Ptr(txt.id), Ptr(a.id)], ret)


def t_ntop(v):
    ex, st = start(v, "inet_ntop")
    size = ex.fresh("size", 32)
    room = ex.fresh("room")
    st.assume(z3.UGE(room, z3.ZeroExt(32, size)), z3.ULE(room, bv(1 << 40)))
    buf = ex.new_reg(st, "dst", "bytes", room)
    old = buf.content
    a = ex.new_reg(st, "in_addr", "cells", 4)
    a.const = True
    val = ex.load(st, Ptr(a.id), _IntTy(32))
    v.cover(ex, st)

    def ret(s, r):
        Ln = ex.textlen(val)
        c = s.mem[buf.id].content
        ex.oblige(s, "inet_ntop: succeeds exactly when the text and its terminator fit", r == z3.ULT(Ln, z3.ZeroExt(32, size)), "postcondition")
        i = ex.fresh("i")
        ex.oblige(s, "inet_ntop: the buffer holds exactly the text and its terminator, the rest is untouched",
                  c.sel(i) == z3.If(z3.And(r, z3.ULE(i, Ln)), z3.If(i == Ln, bv(0, 8), ex.textchr(val, i)), old.sel(i)), "postcondition")
    ex.run(st, find(M, NS + "inet_ntop"), [Ptr(a.id), Ptr(buf.id), size], ret)


def t_xfer(v, fn):
    """read / write / sendto / recvfrom: arguments and result are passed through unchanged"""
    ex, st = start(v, fn)
    fd = osm.given_fd(ex, st, "s")
    n = ex.fresh("len")
    st.assume(z3.ULE(n, bv(1 << 62)))
    buf = ex.new_reg(st, "buf", "bytes", n)
    if fn in ("write", "sendto"): buf.const = True
    args = [fd, Ptr(buf.id), n]
    if fn in ("sendto", "recvfrom"):
        a, val = addr_in(ex, st, "addr", fn == "sendto")
        args.append(Ptr(a))
    v.cover(ex, st)

    def ret(s, r):
        c = one(ex, s, fn, fn, ("the given descriptor", lambda c: c[1] == fd), ("the given buffer", lambda c: T if c[2].r == buf.id and is_c(c[2].off) and cval(c[2].off) == 0 else F),
                ("the given length", lambda c: c[3] == n), ("the system's result is returned", lambda c: r == c[4]))
        ex.oblige(s, f"{fn}: the error code of the system call is still visible", z3.Implies(r == bv(-1), osm.get_errno(ex, s) == c[5]), "postcondition")
        if fn == "sendto": ex.oblige(s, "sendto: the given peer, no flags", z3.And(c[7] == val, c[6] == 0, c[8] == 16), "postcondition")
        if fn == "recvfrom": ex.oblige(s, "recvfrom: the sender's address is delivered, no flags", z3.And(snapshot(ex, s, Ptr(a), 16) == c[7], c[6] == 0), "postcondition")
        others(ex, s, (fn,))
    ex.run(st, find(M, NS + fn), args, ret)


def t_order(v):
    ex, st = start(v, "ntoh_16/ntoh_32/get_lasterror/is_lasterror_WOULDBLOCK")
    for fn, n in (("ntoh_16", 16), ("ntoh_32", 32)):
        x = ex.fresh("x", n)
        want = z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(n // 8)])
        ex.run(st.clone(), find(M, NS + fn), [x], lambda s, r: ex.oblige(s, f"{fn} reverses the byte order of a little-endian machine", r == want, "postcondition"))
    e = osm.get_errno(ex, st)
    ex.run(st.clone(), find(M, NS + "get_lasterror"), [], lambda s, r: ex.oblige(s, "get_lasterror is errno", r == e, "postcondition"))
    ex.run(st.clone(), find(M, NS + "is_lasterror_WOULDBLOCK"), [], lambda s, r: ex.oblige(s, "is_lasterror_WOULDBLOCK exactly for EWOULDBLOCK/EAGAIN", r == (e == 11), "postcondition"))


PF = "cyclone::Pipe::"


def t_pipe(v):
    o = L.off("Pipe", "m_pipe_fd")
    sz = L.sizeof("Pipe")
    ex, st = start(v, "Pipe::Pipe")
    p = ex.new_reg(st, "pipe", "cells", sz)
    v.cover(ex, st)

    def ret(s, r):
        c = calls(s, "pipe")
        made = open_fds(s)
        ok = len(c) == 1 and c[0][1] is not None
        if not ok:
            ex.oblige(s, "a failed pipe holds no descriptor", T if not made else F, "resource")
            return
        a, b = (ex.load(s, Ptr(p.id, o + 4 * k), _IntTy(32)) for k in (0, 1))
        ex.oblige(s, "the pipe keeps its read and write end", z3.And(a == c[0][1], b == c[0][2]), "postcondition")
        for x, nm in zip(made, ("read", "write")):
            if not any(f[0] == "fcntl" and is_c(f[3]) and cval(f[3]) == 0xffffffff for f in s.trace):
                ex.oblige(s, f"the {nm} end is non-blocking and close-on-exec", z3.And((x.fl & osm.O_NONBLOCK) != 0, (x.fdflags & 1) != 0), "postcondition")
    ex.run(st, find_ctor("Pipe"), [Ptr(p.id)], ret)

    ex, st = start(v, "Pipe::~Pipe")
    p = ex.new_reg(st, "pipe", "cells", sz)
    fds = [osm.given_fd(ex, st, n) for n in ("r", "w")]
    for k in (0, 1): ex.store_cell(st, p.id, o + 4 * k, 4, fds[k])

    def ret2(s, r):
        ex.oblige(s, "both ends are closed, each once", T if not open_fds(s) and len(calls(s, "close")) == 2 else F, "resource")
    ex.run(st, PF + "~Pipe()", [Ptr(p.id)], ret2)
    for fn, end, sysc in (("read", 0, "read"), ("write", 1, "write")):
        ex, st = start(v, f"Pipe::{fn}")
        p = ex.new_reg(st, "pipe", "cells", sz)
        fds = [osm.given_fd(ex, st, n) for n in ("r", "w")]
        for k in (0, 1): ex.store_cell(st, p.id, o + 4 * k, 4, fds[k])
        n = ex.fresh("len")
        st.assume(z3.ULE(n, bv(1 << 62)))
        buf = ex.new_reg(st, "buf", "bytes", n)

        def ret3(s, r):
            one(ex, s, sysc, f"Pipe::{fn}", ("its own end", lambda c: c[1] == fds[end]), ("the given buffer", lambda c: T if c[2].r == buf.id and is_c(c[2].off) and cval(c[2].off) == 0 else F),
                ("the given length", lambda c: c[3] == n), ("the system's result is returned", lambda c: r == c[4]))
            others(ex, s, (sysc,))
        ex.run(st, find(M, PF + fn), [Ptr(p.id), Ptr(buf.id), n], ret3)


def find_ctor(cls): return f"cyclone::{cls}::{cls}()"


def t_sockpipe(v):
    ex, st = start(v, "Pipe::construct_socket_pipe")
    h = ex.new_reg(st, "handles", "cells", 8)
    v.cover(ex, st)

    def ret(s, r):
        ok = z3.is_true(z3.simplify(r)) or ex.valid(s, r)
        made = open_fds(s)
        a, b = (ex.load(s, Ptr(h.id, 4 * k), _IntTy(32)) for k in (0, 1))
        if not ok:
            ex.oblige(s, "failure is definite", z3.Not(r), "postcondition")
            ex.oblige(s, "on failure nothing stays open", T if not made else F, "resource")
            ex.oblige(s, "on failure both handles are invalid", z3.And(a == m1, b == m1), "postcondition")
            return
        ex.oblige(s, "on success exactly the two ends stay open", T if len(made) == 2 else F, "resource")
        if len(made) != 2: return
        ex.oblige(s, "the handles are those two descriptors", z3.Or(z3.And(a == made[0].fd, b == made[1].fd), z3.And(b == made[0].fd, a == made[1].fd)), "postcondition")
        for x in made: ex.oblige(s, "each end is non-blocking and close-on-exec", z3.And((x.fl & osm.O_NONBLOCK) != 0, (x.fdflags & 1) != 0), "postcondition")
    ex.run(st, find(M, PF + "construct_socket_pipe"), [Ptr(h.id)], ret)


def tasks(tier):
    S = lambda f, *a: (lambda v: f(v, *a))
    t = [("socket_api::create_socket", t_create), ("socket_api::close_socket", t_close),
         ("socket_api::set_nonblock", S(t_flag, "set_nonblock", "fl", osm.O_NONBLOCK)), ("socket_api::set_close_onexec", S(t_flag, "set_close_onexec", "fdflags", 1)),
         ("socket_api::bind", S(t_addr, "bind")), ("socket_api::connect", S(t_addr, "connect")),
         ("socket_api::listen", S(t_simple, "listen", [])), ("socket_api::shutdown", S(t_simple, "shutdown", [("both directions", lambda c: c[2] == 2)])),
         ("socket_api::accept", t_accept), ("socket_api::setsockopt", t_setsockopt),
         ("socket_api::set_reuse_addr", S(t_option, "set_reuse_addr", 1, 2, boolval, 2)), ("socket_api::set_reuse_port", S(t_option, "set_reuse_port", 1, 15, boolval, 2)),
         ("socket_api::set_keep_alive", S(t_option, "set_keep_alive", 1, 9, boolval, 2)), ("socket_api::set_nodelay", S(t_option, "set_nodelay", 6, 1, boolval, 2)),
         ("socket_api::set_linger", S(t_option, "set_linger", 1, 13, lingerval, 3)), ("socket_api::get_socket_error", t_error),
         ("socket_api::getsockname", S(t_name, "getsockname")), ("socket_api::getpeername", S(t_name, "getpeername")),
         ("socket_api::inet_pton", t_pton), ("socket_api::inet_ntop", t_ntop)]
    t += [(f"socket_api::{f}", S(t_xfer, f)) for f in ("read", "write", "sendto", "recvfrom")]
    return t + [("byte order and last error", t_order), ("Pipe", t_pipe), ("Pipe::construct_socket_pipe", t_sockpipe)]


def replay(failed, errors, seed, tier):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = bld.native("sockapi", os.path.join(root, "harness/sockapi_harness.cpp"), SRC, flags=("-O1", "-g"), libs=("-pthread", "-ldl"))
    return nat.confirm(h, [], [], seed, 10)


native_search = True
