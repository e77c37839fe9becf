"""C23: file transfer.  Client and server of the file transfer sample, from the real code: the plan of the fragments (for every file size and thread count), the
requests, the three receiving states, the combination of the parts, and the server's handling of every message from every peer."""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from dv.loops import Houdini, G
from . import osm, ctext, stdfn, sptr, rb
from .osm import rec, calls
from .c24 import key, sget, sput, norm

TITLE = "C23"
CL, SV = "samples/filetransfer/ft_client.cpp", "samples/filetransfer/ft_server.cpp"
TRUSTED = libc.TRUST_TEXT + sptr.TRUST + stdfn.TRUST + ["std::ofstream/ifstream: a stream writes and reads the file it opened, sequentially; any operation may fail and is then reported by fail() (at the latest by close())",
           "std::string as a sequence of characters", "TcpConnection and TcpClient through their contracts (C12, C13, C17): send copies the bytes in order, callbacks on the loop's thread",
           "RingBuf through its contract (C01), adler32 through its contract (C07)", "sys_api::thread_create/thread_join: the thread runs the given function with the given argument; a successful join happens after its end"]
ASSUMPTIONS = ["less than 2^31 bytes are buffered by one connection", "the file name is shorter than 200 characters", "PeriodValue and logging have no effect on the transfer",
               "the file does not change while it is served (a file that shrank ends the transfer)", "(k+1)*(F/n) <= F for k < n (checked as a lemma over the integers)", "a set of joined threads that lacks one of n members has at most n-1"]
CF = ["m_server_ip", "m_server_port", "m_fileSize", "m_strFileName", "m_threadTounts", "m_bGotFileInfo", "m_beginDownloadTime", "m_endDownloadTime", "m_downloadSpeed", "m_downloadContext"]
DF = ["index", "client", "status", "looper", "fileOffset", "fragmentSize", "receivedSize", "fragmentCRC", "downloadThread", "strFileName", "fileHandle", "beginTime", "endTime"]
SF = ["m_strPathName", "m_strFileName", "m_fileSize", "m_server", "m_workingCounts", "m_threadContext"]
TF = ["status", "fileHandle", "offsetBegin", "offsetNow", "offsetEnd", "fragmentCRC", "buffer", "conn", "sendSpeed"]
CONNECTING, REQUIRE, RECEIVING, COMPLETE, SUCCESS, ERROR = range(6)
IDLE, CONNECTED, SENDING, COMPLETED = range(4)
MC = MS = None


def build():
    global MC, MS, LC, LS, CO, DO, SO, TO, rlay
    MC, LC = bld.module([CL], extra=["samples/filetransfer"])
    MS, LS = bld.module([SV], extra=["samples/filetransfer"])
    CO = {f: LC.off("FileTransferClient", f, CF) for f in CF}
    DO = {f: LC.off("FileTransferClient::DownloadThreadContext", f, DF) for f in DF}
    SO = {f: LS.off("FileTransferServer", f, SF) for f in SF}
    TO = {f: LS.off("FileTransferServer::ThreadContext", f, TF) for f in TF}
    rlay = rb.Lay(LC)


def le(src, off, n): return z3.simplify(z3.Concat(*[src(bv(off + i)) for i in reversed(range(n))]))


class X:
    def __init__(self, v, name, M, server):
        self.ex = ex = v.exec(M, name)
        self.v, self.server = v, server
        libc.install(ex)
        stdfn.install(ex)
        sptr.install(ex, lambda *a: None)
        rb.install(ex, rlay, rb.ALL)
        st = self.st = State()
        st.ghost.update(str={}, files={}, bufs={}, cstr={}, text={}, rb_pure=True)
        on = ex.on
        nop = lambda ex, st, a, I: None
        S = r"^std::(__cxx11::)?basic_string<char, .*>::"
        on(S + r"basic_string\(\)$", lambda ex, st, a, I: sput(ex, st, a[0], ()))
        on(S + r"~basic_string\(\)$", nop)
        on(S + r"basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$", lambda ex, st, a, I: sput(ex, st, a[0], self.text_of(st, a[1], I)))
        on(S + r"basic_string\(std::(__cxx11::)?basic_string<.*(const&|&&)\)$", lambda ex, st, a, I: sput(ex, st, a[0], sget(ex, st, a[1])))
        on(S + r"(operator=|assign)\(char const\*\)$", lambda ex, st, a, I: (sput(ex, st, a[0], self.text_of(st, a[1], I)), a[0])[1])
        on(S + r"(operator=|assign)\(std::(__cxx11::)?basic_string<.*(const&|&&)\)$", lambda ex, st, a, I: (sput(ex, st, a[0], sget(ex, st, a[1])), a[0])[1])
        on(S + r"(operator\+=|append)\(char const\*\)$", lambda ex, st, a, I: (sput(ex, st, a[0], norm(sget(ex, st, a[0]) + self.text_of(st, a[1], I))), a[0])[1])
        on(S + r"(operator\+=|append)\(std::(__cxx11::)?basic_string<.*const&\)$", lambda ex, st, a, I: (sput(ex, st, a[0], norm(sget(ex, st, a[0]) + sget(ex, st, a[1]))), a[0])[1])
        on(r"^std::(__cxx11::)?basic_string<char, .*std::operator\+<char, .*\(.*char const\*\)$", lambda ex, st, a, I: sput(ex, st, a[0], norm(sget(ex, st, a[1]) + self.text_of(st, a[2], I))))
        on(r"^std::(__cxx11::)?basic_string<char, .*std::operator\+<char, .*\(std::(__cxx11::)?basic_string<.*, std::(__cxx11::)?basic_string<.*\)$", lambda ex, st, a, I: sput(ex, st, a[0], norm(sget(ex, st, a[1]) + sget(ex, st, a[2]))))
        on(r"^std::(__cxx11::)?(basic_string<.*> std::(__cxx11::)?)?to_string\(int\)$", lambda ex, st, a, I: sput(ex, st, a[0], (("int", str(z3.simplify(a[1]))),)))
        on(S + r"(c_str|data)\(\)( const)?$", self.c_str)
        on(S + r"(length|size)\(\) const$", lambda ex, st, a, I: self.tlen(st, sget(ex, st, a[0])))
        on(S + r"find_last_of\(", lambda ex, st, a, I: self.last_of(st, a, I))
        on(S + r"substr\(", lambda ex, st, a, I: self.substr(st, a, I))
        on(r"^std::(__new_)?allocator<char>::~?(__new_)?allocator\(\)$", nop)
        on(r"^(std::)?snprintf$", self.snprintf)
        on(r"^cyclone::disk_log\(", nop)
        on(r"^cyclone::string_util::size_to_string", lambda ex, st, a, I: sput(ex, st, a[0], ("?",)))
        F_ = r"^std::basic_(if|of)stream<char, .*>::"
        on(F_ + r"basic_[io]fstream\(\)$", lambda ex, st, a, I: self.f_ctor(st, a[0], ex.m.dem[I.extra.val]))
        on(F_ + r"~basic_[io]fstream\(\)$", lambda ex, st, a, I: self.f_close(st, a[0], I, True))
        on(F_ + r"open\(", self.f_open)
        on(F_ + r"close\(\)$", lambda ex, st, a, I: self.f_close(st, a[0], I))
        on(F_ + r"is_open\(\)( const)?$", lambda ex, st, a, I: T if self.f(st, a[0])["open"] else F)
        B = r"^std::basic_ios<char, .*>::"
        on(B + r"(fail\(\) const|operator!\(\) const)$", lambda ex, st, a, I: self.f(st, a[0])["bad"])
        on(B + r"operator bool\(\) const$", lambda ex, st, a, I: z3.Not(self.f(st, a[0])["bad"]))
        on(B + r"bad\(\) const$", lambda ex, st, a, I: z3.And(self.f(st, a[0])["bad"], ex.fresh("badbit", 1)))
        on(B + r"eof\(\) const$", lambda ex, st, a, I: self.f(st, a[0])["eof"])
        on(B + r"good\(\) const$", lambda ex, st, a, I: z3.Not(z3.Or(self.f(st, a[0])["bad"], self.f(st, a[0])["eof"])))
        on(r"^std::basic_ostream<char, .*>::write\(", self.f_write)
        on(r"^std::basic_ostream<char, .*>::flush\(", lambda ex, st, a, I: (self.f_upd(st, a[0], bad=z3.Or(self.f(st, a[0])["bad"], ex.fresh("flush_failed", 1))), a[0])[1])
        on(r"^std::basic_istream<char, .*>::read\(", self.f_read)
        on(r"^std::basic_istream<char, .*>::gcount\(\) const$", lambda ex, st, a, I: self.f(st, a[0])["count"])
        on(r"^std::basic_istream<char, .*>::seekg\(", self.f_seek)
        on(r"^std::basic_istream<char, .*>::tellg\(\)$", self.f_tell)
        on(r"^remove$", lambda ex, st, a, I: (rec(st, "remove", self.text_of(st, a[0], I)), ex.fresh("removed", 32))[1])
        on(r"^cyclone::adler32\(", self.adler)
        on(r"^cyclone::PeriodValue<", nop)
        on(r"^cyclone::PeriodValue<.*>::sum_and_counts\(", lambda ex, st, a, I: (ex.fresh("sum"), ex.fresh("counts", 32)))
        on(r"^cyclone::PeriodValue<.*>::get_time_period\(\) const$", lambda ex, st, a, I: bv(1000, 32))
        on(r"^cyclone::sys_api::performance_time_now\(\)$", lambda ex, st, a, I: (t := ex.fresh("now"), st.assume(z3.ULT(t, bv(1 << 62))))[0])
        on(r"^cyclone::sys_api::thread_sleep\(", nop)
        on(r"^cyclone::TcpConnection::(start_write_statistics)\(", nop)
        on(r"^cyclone::TcpConnection::get_(writebuf|readebuf|readbuf)_max_size\(\) const$", lambda ex, st, a, I: ex.fresh("maxsize"))
        on(r"^cyclone::TcpConnection::get_write_statistics\(\) const$", lambda ex, st, a, I: (ex.fresh("sum"), ex.fresh("counts", 32)))
        on(r"^cyclone::TcpConnection::get_input_buf\(\)$", lambda ex, st, a, I: Ptr(self.mine(st, a[0], I, self.rb_of), 0))
        on(r"^cyclone::Tcp(Connection|Client)::send\(", self.send)
        on(r"^cyclone::TcpConnection::shutdown\(\)$", lambda ex, st, a, I: rec(st, "shutdown", self.who(st, a[0])))
        on(r"^cyclone::TcpClient::disconnect\(\)$", lambda ex, st, a, I: rec(st, "shutdown", self.who(st, a[0])))
        on(r"^cyclone::TcpConnection::set_on_send_complete\(", lambda ex, st, a, I: rec(st, "on_send_complete", self.who(st, a[0]), stdfn.get(st, a[1])))
        on(r"^std::_Bind_helper<.*std::bind<", self.bind)
        on(r"^std::function<.*>::function<.*, void>\(", lambda ex, st, a, I: stdfn.put(st, a[0], stdfn.get(st, a[1]) or stdfn.Target("closure", T)))
        on(r"^(std::enable_if<.*)?std::function<.*>::operator=<", lambda ex, st, a, I: (stdfn.put(st, a[0], stdfn.get(st, a[1]) or stdfn.Target("closure", T)), a[0])[1])
        on(r"^bool std::operator(!=|==)<.*>\(std::shared_ptr<.*> const&, std::shared_ptr<.*> const&\)$", self.sp_cmp)
        on(r"^cyclone::TcpClient::get_param\(\) const$", lambda ex, st, a, I: Ptr(self.ctx, 0))
        on(r"^cyclone::Looper::(push_stop_request|loop)\(\)$", lambda ex, st, a, I: rec(st, re.search(r"Looper::(\w+)", ex.m.dem[I.extra.val]).group(1), a[0]))

    def ob(self, st, name, goal, kind="postcondition", line=None): self.ex.oblige(st, name, goal if z3.is_expr(goal) else (T if goal else F), kind, line)

    # ---- texts
    def text_of(self, st, p, I):
        t = ctext.literal(self.ex, st, p)
        if t is not None: return (t,)
        q = self.ex.resolve(st, p)
        if q.r in st.ghost["cstr"]: return st.ghost["cstr"][q.r]
        if (q.r, q.off) in st.ghost["bufs"]: return st.ghost["bufs"][q.r, q.off]
        if q.r in st.ghost.get("message", ()): return self.message_text(st, q, I)
        return (("chars", q.r, str(q.off)),)

    def message_text(self, st, q, I): raise Unsupported("text inside a message")

    def tlen(self, st, v):
        n = bv(0)
        for x in v:
            if isinstance(x, str): n = n + len(x)
            else:
                f = z3.BitVec("length." + re.sub(r"\W+", "_", str(x)), 64)
                st.assume(z3.ULT(f, bv(200)))
                n = n + f
        return z3.simplify(n)

    def c_str(self, ex, st, a, I):
        v = sget(ex, st, a[0])
        for r, x in st.ghost["cstr"].items():
            if x == v: return Ptr(r, 0)
        r = ex.new_reg(st, "c_str", "bytes", z3.simplify(self.tlen(st, v) + 1))
        r.const = True
        f = z3.Function(f"chars{r.id}", z3.BitVecSort(64), z3.BitVecSort(8))
        r.content = CFun(lambda i, n=self.tlen(st, v): z3.If(i == n, bv(0, 8), f(i)))
        st.ghost["cstr"] = {**st.ghost["cstr"], r.id: v}
        return Ptr(r.id, 0)

    def last_of(self, st, a, I):
        v = sget(self.ex, st, a[0])
        n = self.tlen(st, v)
        k = z3.BitVec("lastsep", 64)
        st.assume(z3.Or(k == bv((1 << 64) - 1), z3.ULT(k, n)))
        st.ghost["sep"] = (v, k)
        return k

    def substr(self, st, a, I):
        v = sget(self.ex, st, a[1])
        self.ob(st, "substr starts inside the text", z3.ULE(a[2], self.tlen(st, v)), "callee precondition", I.line)
        g = st.ghost.get("sep")
        sput(self.ex, st, a[0], (("base", v),) if g and g[0] == v and z3.is_true(z3.simplify(a[2] == g[1] + 1)) else (("part of", v, str(a[2])),))

    def tokens(self, st, fp, args, I):
        s = ctext.literal(self.ex, st, fp)
        if s is None: raise Unsupported("a computed format string")
        out, k = [], 0
        for x in ctext.fmt_parts(s):
            if isinstance(x, str): out.append(x)
            else:
                a, k = args[k], k + 1
                if x[3] == "s": out += self.text_of(st, a, I)
                elif x[3] in "diu" and x[0] in ("%d", "%i", "%u") and z3.is_bv(a): out.append(("int", str(z3.simplify(a))))
                else: out.append(("arg", x[0], str(a)))
        return norm(out)

    def snprintf(self, ex, st, a, I):
        q = ctext.room(ex, st, a[0], a[1], "snprintf destination", I.line)
        tok = self.tokens(st, a[2], a[3:], I)
        st.ghost["bufs"] = {**st.ghost["bufs"], (q.r, q.off): tok if z3.is_true(z3.simplify(z3.UGE(b64(a[1]), bv(240)))) or all(isinstance(t, str) or t[0] == "int" for t in tok) else (("cut",) + tok,)}
        return ex.fresh("printed", 32)

    # ---- streams
    def vt(self, st, base):
        r = self.ex.new_reg(st, "vtable", "cells", 64)
        self.ex.store_cell(st, r.id, 0, 8, bv(base))
        return Ptr(r.id, 24)

    def f_ctor(self, st, p, dem): self.f_make(st, key(self.ex, st, p), "if" if "ifstream" in dem else "of")

    def f_make(self, st, k, kind, **d):
        base = 256 if kind == "if" else 248
        self.ex.store_cell(st, k[0], k[1], 8, self.vt(st, base))
        st.ghost["files"] = {**st.ghost["files"], k: {**dict(kind=kind, base=base, open=False, bad=F, eof=F, pos=bv(0), count=bv(0), name=None), **d}}

    def fk(self, st, p):
        k = key(self.ex, st, p)
        if k in st.ghost["files"]: return k
        for (r, o), f in st.ghost["files"].items():
            if r == k[0] and o + f["base"] == k[1]: return (r, o)
        raise Unsupported("unknown stream")

    def f(self, st, p): return st.ghost["files"][p if isinstance(p, tuple) else self.fk(st, p)]
    def f_upd(self, st, p, **d):
        k = p if isinstance(p, tuple) else self.fk(st, p)
        st.ghost["files"] = {**st.ghost["files"], k: {**st.ghost["files"][k], **d}}

    def f_open(self, ex, st, a, I):
        k, s = self.fk(st, a[0]), re.search(r"open\((char const)?", ex.m.dem[I.extra.val])
        name = self.text_of(st, a[1], I) if s.group(1) else sget(ex, st, a[1])
        mode = cval(z3.simplify(a[2])) if z3.is_bv_value(z3.simplify(a[2])) else -1
        if self.f(st, k)["open"]:
            self.f_upd(st, k, bad=T)
            rec(st, "open", k, name, mode, False)
            return None
        ok = ex.fresh("opened", 1)
        def yes(s):
            n = ex.fresh("length")
            s.assume(z3.ULT(n, bv(1 << 62)))
            self.f_upd(s, k, open=True, bad=F, eof=F, pos=n if mode & 2 else bv(0), name=name, length=self.len_of(s, name, n), data=self.data_of(name), mode=mode, start=bv(0))
            rec(s, "open", k, name, mode, True)
        def no(s):
            self.f_upd(s, k, bad=T)
            rec(s, "open", k, name, mode, False)
        return osm.alts(ex, st, [(ok, yes), (z3.Not(ok), no)])

    def len_of(self, st, name, n): return z3.BitVec("filelength." + re.sub(r"\W+", "_", str(name)), 64) if st.assume(z3.ULT(z3.BitVec("filelength." + re.sub(r"\W+", "_", str(name)), 64), bv(1 << 62))) is None else n
    def data_of(self, name): return z3.Function("filedata." + re.sub(r"\W+", "_", str(name)), z3.BitVecSort(64), z3.BitVecSort(8))

    def f_close(self, st, p, I, dtor=False):
        k = self.fk(st, p)
        f = self.f(st, k)
        if f["open"]: self.f_upd(st, k, open=False, bad=z3.Or(f["bad"], self.ex.fresh("close_failed", 1)) if f["kind"] == "of" else f["bad"])
        elif not dtor: self.f_upd(st, k, bad=T)
        rec(st, "fclose", k, f["open"], dtor)

    def f_write(self, ex, st, a, I):
        k = self.fk(st, a[0])
        f, n = self.f(st, k), b64(a[2])
        rb.need_range(ex, st, a[1], n, I, False, "the bytes written to a file")
        self.ob(st, "a file is open when written", f["open"], "callee precondition", I.line)
        rec(st, "write", k, rb.ptr_bytes(ex, st, a[1]), n, f["pos"])
        self.f_upd(st, k, bad=z3.Or(f["bad"], ex.fresh("write_failed", 1)), pos=f["pos"] + n)
        return a[0]

    def f_read(self, ex, st, a, I):
        k = self.fk(st, a[0])
        f, n = self.f(st, k), b64(a[2])
        rb.need_range(ex, st, a[1], n, I, True, "the buffer a file is read into")
        c = ex.fresh("gcount")
        left = z3.If(z3.ULT(f["pos"], f["length"]), f["length"] - f["pos"], bv(0))
        st.assume(z3.ULE(c, n), z3.ULE(c, left), z3.Implies(z3.Or(f["bad"], f["eof"], z3.BoolVal(not f["open"])), c == 0))
        d, pos = f["data"], f["pos"]
        q = ex.resolve(st, a[1])
        rb.write_bytes(ex, st, q, c, lambda i: d(pos + i), I.line)
        err = ex.fresh("read_error", 1)
        st.assume(z3.Implies(z3.And(c == n, z3.Not(z3.Or(f["bad"], f["eof"]))), z3.Not(err)))      # a full read reports no error
        short = z3.ULT(c, n)
        self.f_upd(st, k, count=c, pos=z3.simplify(pos + c), eof=z3.Or(f["eof"], z3.And(short, z3.Not(err))), bad=z3.Or(f["bad"], short))
        st.assume(z3.Implies(z3.And(short, z3.Not(err), z3.Not(f["bad"]), z3.Not(f["eof"])), c == left))    # end of file
        rec(st, "read", k, pos, n, c, (q.r, str(q.off)))
        return a[0]

    def f_seek(self, ex, st, a, I):
        k = self.fk(st, a[0])
        self.f_upd(st, k, eof=F, pos=b64(a[1]))
        rec(st, "seek", k, b64(a[1]))
        return a[0]

    def f_tell(self, ex, st, a, I):
        k = self.fk(st, a[0])
        n = self.f(st, k).get("length")
        return (z3.If(self.f(st, k)["bad"], bv((1 << 64) - 1), self.f(st, k)["pos"]) if not (self.f(st, k).get("mode", 0) & 2) else n, bv(0))

    # ---- network
    def adler(self, ex, st, a, I):
        n = b64(a[2])
        rb.need_range(ex, st, a[1], n, I, False, "the bytes summed")
        r = ex.fresh("crc", 32)
        rec(st, "adler", a[0], rb.ptr_bytes(ex, st, a[1]), n, r)
        return r

    def send(self, ex, st, a, I):
        n = b64(a[2])
        rb.need_range(ex, st, a[1], n, I, False, "the bytes sent")
        rec(st, "send", self.who(st, a[0]), rb.ptr_bytes(ex, st, a[1]), n)

    def who(self, st, p):
        q = self.ex.resolve(st, p)
        return q.r

    def mine(self, st, p, I, t):
        r = self.who(st, p)
        if r not in t: raise Unsupported("the buffer of an unknown connection")
        return t[r]

    def sp_cmp(self, ex, st, a, I):
        x, y = sptr.get(ex, st, a[0], I.line), sptr.get(ex, st, a[1], I.line)
        e = ex.ptr_eq(x, y)
        return z3.Not(e) if "operator!=" in ex.m.dem[I.extra.val] else e

    def bind(self, ex, st, a, I):
        t, ints = None, []
        for x in a:
            if isinstance(x, FnPtr): t = x.name
            if isinstance(x, Ptr) and x.r in st.mem and x.r != a[0].r:
                sz = st.mem[x.r].size
                if is_c(sz) and cval(sz) < 8: continue
                try: y = ex.load(st, x, _PtrTy())
                except Unsupported: continue
                if isinstance(y, FnPtr): t = y.name
        stdfn.put(st, a[0], ("bound", ex.m.dem.get(t, t)))

    def conn(self, name, data=True):
        ex, st = self.ex, self.st
        r = ex.new_reg(st, name, "cells", 64)
        rid = rb.make_pure(ex, st, rlay, "rb_" + name)
        st.assume(z3.ULT(rb.view(ex, st, rlay, rid).size, bv(1 << 31)))
        self.rb_of = {**getattr(self, "rb_of", {}), r.id: rid}
        h = ex.new_reg(st, "sp_" + name, "cells", 16)
        ex.store_cell(st, h.id, 0, 8, Ptr(r.id, 0))
        ex.store_cell(st, h.id, 8, 8, NULL)
        return r.id, h.id

    def view(self, s, c): return rb.view(self.ex, s, rlay, self.rb_of[c])

    def unchanged(self, s, c, v0, what):
        g, i = self.view(s, c), self.ex.fresh("i")
        self.ob(s, what, z3.And(g.size == v0.size, z3.Implies(z3.ULT(i, v0.size), g.sel(i) == v0.sel(i))))

    def consumed(self, s, c, v0, n, what):
        g, i = self.view(s, c), self.ex.fresh("i")
        self.ob(s, what, z3.And(z3.ULE(n, v0.size), g.size == v0.size - n, z3.Implies(z3.ULT(i, g.size), g.sel(i) == v0.sel(z3.simplify(i + n)))))


def fn(M, rx):
    c = [d for d in M.bydem if re.match(rx, d) and M.has(M.bydem[d])]
    if len(c) != 1: raise bld.BuildError(f"{rx}: {len(c)} definitions")
    return c[0]


def of(st, *n): return [t for t in st.trace if t[0] in n]


# ------------------------------------------------------------------- client
class Cl(X):
    def __init__(self, v, name):
        super().__init__(v, name, MC, False)
        ex, st = self.ex, self.st
        self.this = ex.new_reg(st, "client", "cells", LC.sizeof("FileTransferClient")).id
        self.F = ex.fresh("fileSize")
        ex.store_cell(st, self.this, CO["m_fileSize"], 8, self.F)
        st.ghost["str"] = {(self.this, CO["m_strFileName"]): (("name",),), (self.this, CO["m_server_ip"]): (("ip",),)}

    def context(self, status=None, handle=True):
        ex, st = self.ex, self.st
        self.ctx = ex.new_reg(st, "context", "cells", LC.sizeof("FileTransferClient::DownloadThreadContext")).id
        self.off, self.size, self.got, self.crc, self.idx = ex.fresh("fileOffset"), ex.fresh("fragmentSize", 32), ex.fresh("received", 32), ex.fresh("crc", 32), ex.fresh("index", 32)
        st.assume(self.size >= 0, self.got >= 0, self.got <= self.size, z3.ULE(self.off, self.F), z3.ULE(z3.ZeroExt(32, self.size), self.F - self.off))
        for f, n, x in [("index", 4, self.idx), ("fileOffset", 8, self.off), ("fragmentSize", 4, self.size), ("receivedSize", 4, self.got), ("fragmentCRC", 4, self.crc)]: ex.store_cell(st, self.ctx, DO[f], n, x)
        if status is not None: ex.store_cell(st, self.ctx, DO["status"], 4, bv(status, 32))
        st.ghost["str"] = {**st.ghost["str"], (self.ctx, DO["strFileName"]): (("partname",),)}
        self.fh = (self.ctx, DO["fileHandle"])
        self.f_make(st, self.fh, "of", **(dict(open=True, pos=z3.ZeroExt(32, self.got), name=(("partname",),)) if handle else {}))
        t = ex.fresh("beginTime")
        st.assume(z3.ULT(t, bv(1 << 62)))
        ex.store_cell(st, self.ctx, DO["beginTime"], 8, t)

    def fld(self, s, f, n): return self.ex.load(s, Ptr(self.ctx, DO[f]), _IntTy(8 * n))
    def status(self, s): return self.fld(s, "status", 4)
    def same_plan(self, s):
        self.ob(s, "the fragment's place in the file is left alone", z3.And(self.fld(s, "fileOffset", 8) == self.off, self.fld(s, "fragmentSize", 4) == self.size, self.fld(s, "index", 4) == self.idx))


def t_begin_fragment(v):
    c = Cl(v, "_onReceiveFragmentBegin")
    c.context(REQUIRE)
    cn, h = c.conn("conn")
    ex, v0, st = c.ex, c.view(c.st, cn), c.st
    v.cover(ex, st)

    def ret(s, r):
        r = r if z3.is_bool(r) else r == 1
        full = z3.UGE(v0.size, bv(24))
        good = z3.And(le(v0.sel, 4, 4) == 4, le(v0.sel, 8, 8) == c.off, le(v0.sel, 16, 4) == c.size)
        n, x = c.status(s), bool(of(s, "shutdown"))
        c.ob(s, "an incomplete announcement is waited for", z3.Implies(z3.Not(full), z3.And(r, n == REQUIRE, z3.BoolVal(not x))))
        c.ob(s, "a fragment is accepted only if the announcement names this fragment", z3.Implies(n == RECEIVING, z3.And(full, good)))
        c.ob(s, "the announcement of this fragment is accepted", z3.Implies(z3.And(full, good), z3.And(n == RECEIVING, z3.Not(r), z3.BoolVal(not x))))
        c.ob(s, "any other announcement fails the fragment and closes the connection", z3.Implies(z3.And(full, z3.Not(good)), z3.And(n == ERROR, z3.BoolVal(x))))
        a, b = s.clone(), s.clone()
        a.assume(full); b.assume(z3.Not(full))
        if ex.feasible(a): c.consumed(a, cn, v0, bv(24), "the announcement, and nothing else, is consumed")
        if ex.feasible(b): c.unchanged(b, cn, v0, "an incomplete announcement stays in the buffer")
        c.same_plan(s)
        c.ob(s, "no data is written yet, no count changes", z3.And(z3.BoolVal(not of(s, "write", "send")), c.fld(s, "receivedSize", 4) == c.got, c.fld(s, "fragmentCRC", 4) == c.crc))
    ex.run(st, fn(MC, r"^FileTransferClient::_onReceiveFragmentBegin\("), [Ptr(c.this, 0), Ptr(c.ctx, 0), Ptr(h, 0)], ret)


def t_data(v):
    c = Cl(v, "_onReceiveFileData")
    c.context(RECEIVING)
    cn, h = c.conn("conn")
    ex, v0, st = c.ex, c.view(c.st, cn), c.st
    v.cover(ex, st)
    left = z3.ZeroExt(32, c.size - c.got)
    w = z3.If(z3.ULT(v0.size, left), v0.size, left)

    def ret(s, r):
        W, A = of(s, "write"), of(s, "adler")
        total, i = bv(0), ex.fresh("i")
        for t in W:
            c.ob(s, "received bytes are appended to the fragment's own file, in order", z3.And(z3.BoolVal(t[1] == c.fh), t[4] == z3.ZeroExt(32, c.got) + total, z3.Implies(z3.ULT(i, t[3]), t[2](i) == v0.sel(z3.simplify(total + i)))))
            total = z3.simplify(total + t[3])
        n, f = c.status(s), s.ghost["files"][c.fh]
        c.ob(s, "exactly the fragment's bytes are written, not the message that follows", total == w)
        c.consumed(s, cn, v0, w, "exactly the bytes written are consumed")
        p, tot = c.crc, bv(0)
        for t in A:
            c.ob(s, "the checksum is continued over the bytes written", z3.And(t[1] == p, z3.Implies(z3.ULT(i, t[3]), t[2](i) == v0.sel(z3.simplify(tot + i)))))
            p, tot = t[4], z3.simplify(tot + t[3])
        c.ob(s, "the checksum covers every byte written", z3.And(tot == w, z3.Or(c.fld(s, "fragmentCRC", 4) == p, w == 0)))
        done = z3.ZeroExt(32, c.got) + w == z3.ZeroExt(32, c.size)
        c.ob(s, "the fragment is complete only when every byte was written and the file closed without failure", z3.Implies(n == COMPLETE, z3.And(done, z3.BoolVal(not f["open"]), z3.Not(f["bad"]))))
        c.ob(s, "the fragment stays open only while bytes are missing", z3.Implies(n == RECEIVING, z3.And(z3.Not(done), z3.BoolVal(f["open"]), z3.Not(f["bad"]))))
        c.ob(s, "a failed write fails the fragment", z3.Implies(f["bad"], n == ERROR))
        c.ob(s, "the fragment fails only after a failed write, and the connection is closed", z3.Implies(n == ERROR, z3.And(f["bad"], z3.BoolVal(bool(of(s, "shutdown"))))))
        c.ob(s, "no other state is entered", z3.Or(n == COMPLETE, n == RECEIVING, n == ERROR))
        c.ob(s, "the received count is exact", z3.Implies(n != ERROR, z3.ZeroExt(32, c.fld(s, "receivedSize", 4)) == z3.ZeroExt(32, c.got) + w))
        c.same_plan(s)
    ex.run(st, fn(MC, r"^FileTransferClient::_onReceiveFileData\("), [Ptr(c.this, 0), Ptr(c.ctx, 0), Ptr(h, 0)], ret)


def t_end(v):
    c = Cl(v, "_onReceiveFragmentEnd")
    c.context(COMPLETE)
    c.st.assume(c.got == c.size)
    cn, h = c.conn("conn")
    ex, v0, st = c.ex, c.view(c.st, cn), c.st
    v.cover(ex, st)

    def ret(s, r):
        r = r if z3.is_bool(r) else r == 1
        full = z3.UGE(v0.size, bv(12))
        good = z3.And(le(v0.sel, 4, 4) == 5, le(v0.sel, 8, 4) == c.crc)
        n, x = c.status(s), bool(of(s, "shutdown"))
        c.ob(s, "an incomplete end message is waited for", z3.Implies(z3.Not(full), z3.And(r, n == COMPLETE, z3.BoolVal(not x))))
        c.ob(s, "the fragment succeeds exactly if the end message carries its checksum", z3.Implies(full, z3.And((n == SUCCESS) == good, z3.Or(n == SUCCESS, n == ERROR), z3.Not(r), z3.BoolVal(x))))
        a, b = s.clone(), s.clone()
        a.assume(full); b.assume(z3.Not(full))
        if ex.feasible(a): c.consumed(a, cn, v0, bv(12), "the end message, and nothing else, is consumed")
        if ex.feasible(b): c.unchanged(b, cn, v0, "an incomplete end message stays in the buffer")
        c.same_plan(s)
    ex.run(st, fn(MC, r"^FileTransferClient::_onReceiveFragmentEnd\("), [Ptr(c.this, 0), Ptr(c.ctx, 0), Ptr(h, 0)], ret)


class MsgLoop:
    """the dispatch loop, decided by one arbitrary iteration"""
    def __init__(self, c, cn): self.c, self.cn = c, cn

    def fresh(self, st):
        c, ex = self.c, self.c.ex
        x = ex.fresh("status", 32)
        st.assume(z3.And(x >= REQUIRE, x <= ERROR))
        ex.store_cell(st, c.ctx, DO["status"], 4, x)
        n = ex.fresh("rbsize")
        f = z3.Function(f"rb!{next(ex.fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(8))
        st.assume(z3.ULT(n, bv(1 << 31)))
        rb.set_pure(st, c.rb_of[self.cn], 0, rb.View(n, lambda i: f(b64(i)), bv(1 << 40)))
        return x, n

    def enter(self, ex, st, hdr, phis):
        for I in phis: phis[I] = ex.fresh_of(I.ty, "loop")
        x, n = self.fresh(st)
        st.assume(z3.Or(n != 0, z3.BoolVal(True)))
        return (x, n)

    def back(self, ex, st, hdr, phis, sv):
        x, n = sv
        c = self.c
        y, m = c.status(st), c.view(st, self.cn).size
        c.ob(st, "every iteration makes progress (a later state, or less to read)", z3.Or(y > x, z3.And(y == x, z3.ULT(m, n))), "termination", hdr.insts[-1].line)
        c.ob(st, "the loop goes on only while there is something to read", m != 0, "loop invariant", hdr.insts[-1].line)


def t_message(v):
    c = Cl(v, "_onMessage")
    c.context(None)
    cn, h = c.conn("conn")
    ex, st = c.ex, c.st
    lp = MsgLoop(c, cn)
    lp.fresh(st)
    cl = ex.new_reg(st, "sp_client", "cells", 16)
    ex.store_cell(st, cl.id, 0, 8, Ptr(ex.new_reg(st, "tcpclient", "cells", 8).id, 0))
    ex.store_cell(st, cl.id, 8, 8, NULL)

    def part(want, name):
        def h(ex, st, a, I):
            x = c.status(st)
            c.ob(st, f"{name} runs only in its own state", x == want, "callee precondition", I.line)
            c.ob(st, f"{name} gets the thread's context", z3.BoolVal(isinstance(a[1], Ptr) and a[1].r == c.ctx), "callee precondition", I.line)
            rec(st, name)
            rid = c.rb_of[cn]
            v0 = rb.view(ex, st, rlay, rid)
            def to(s, y, k):
                ex.store_cell(s, c.ctx, DO["status"], 4, y)
                rb.set_pure(s, rid, 0, rb.drop(v0, k))
            need = 24 if want == REQUIRE else 12
            y = ex.fresh("status", 32)
            if want == RECEIVING:
                k, d = ex.fresh("taken"), ex.fresh("missing")
                st.assume(z3.ULE(k, v0.size), z3.Or(y == RECEIVING, y == COMPLETE, y == ERROR), z3.Implies(y == RECEIVING, k == v0.size), z3.Implies(z3.And(v0.size != 0, y == RECEIVING), k != 0))
                to(st, y, k)
                return None
            ok = (RECEIVING if want == REQUIRE else SUCCESS)
            return osm.alts(ex, st, [(z3.ULT(v0.size, bv(need)), lambda s: bv(1, 1)), (z3.UGE(v0.size, bv(need)), lambda s: (s.assume(z3.Or(y == ok, y == ERROR)), to(s, y, bv(need)), bv(0, 1))[2])])
        return h
    for w, nm in [(REQUIRE, "_onReceiveFragmentBegin"), (RECEIVING, "_onReceiveFileData"), (COMPLETE, "_onReceiveFragmentEnd")]: ex.on(rf"^FileTransferClient::{nm}\(", part(w, nm))
    ex.loop_specs.append((re.compile(r"^FileTransferClient::_onMessage|_onMessage"), None, lp))
    v.cover(ex, st)

    def ret(s, r):
        c.ob(s, "the handler returns when all is read or a message is incomplete", z3.Or(c.view(s, cn).size == 0, z3.And(c.status(s) == REQUIRE, z3.ULT(c.view(s, cn).size, bv(24))), z3.And(c.status(s) == COMPLETE, z3.ULT(c.view(s, cn).size, bv(12)))))
    ex.run(st, fn(MC, r"^FileTransferClient::_onMessage\("), [Ptr(c.this, 0), Ptr(cl.id, 0), Ptr(h, 0)], ret)


def t_connected(v):
    c = Cl(v, "_onConnected")
    c.context(CONNECTING, handle=False)
    ex, st = c.ex, c.st
    tc = ex.new_reg(st, "tcpclient", "cells", 8).id
    cl = ex.new_reg(st, "sp_client", "cells", 16)
    ex.store_cell(st, cl.id, 0, 8, Ptr(tc, 0))
    ex.store_cell(st, cl.id, 8, 8, NULL)
    ok = ex.fresh("success", 1)
    v.cover(ex, st)
    name = (("name",), ".part", ("int", str(z3.simplify(c.idx))))

    def ret(s, r):
        S, O = of(s, "send"), of(s, "open")
        opened = any(o[4] for o in O)
        c.ob(s, "a failed attempt is retried and nothing else happens", z3.Implies(z3.Not(ok), z3.And(r != 0, z3.BoolVal(not S and not O), c.status(s) == CONNECTING)))
        c.ob(s, "a connection made is not retried", z3.Implies(ok, r == 0))
        for o in O:
            c.ob(s, "each fragment is written to a file of its own, from its start", o[1] == c.fh and o[2] == name and o[3] & 16 and o[3] & 4 and not o[3] & 1)
        c.ob(s, "the fragment's file name is remembered", z3.Implies(ok, z3.BoolVal(s.ghost["str"].get((c.ctx, DO["strFileName"])) == name)))
        c.ob(s, "the fragment is requested once if its file is open, and not otherwise", z3.Implies(ok, z3.BoolVal(len(S) == (1 if opened else 0))))
        for t in S:
            c.ob(s, "the request names exactly this thread's fragment", z3.And(z3.BoolVal(t[1] == tc), t[3] == 24, le(t[2], 0, 4) == 24, le(t[2], 4, 4) == 3, le(t[2], 8, 8) == c.off, le(t[2], 16, 4) == c.size))
            c.ob(s, "the reply is awaited", c.status(s) == REQUIRE)
        c.same_plan(s)
    ex.run(st, fn(MC, r"^FileTransferClient::_onConnected\("), [Ptr(c.this, 0), Ptr(cl.id, 0), ok], ret)


def t_closed(v):
    c = Cl(v, "_onClose")
    c.context(None)
    ex, st = c.ex, c.st
    x = ex.fresh("status", 32)
    ex.store_cell(st, c.ctx, DO["status"], 4, x)
    lo = ex.new_reg(st, "looper", "cells", 8).id
    ex.store_cell(st, c.ctx, DO["looper"], 8, Ptr(lo, 0))
    cl = ex.new_reg(st, "sp_client", "cells", 16)
    ex.store_cell(st, cl.id, 0, 8, Ptr(ex.new_reg(st, "tcpclient", "cells", 8).id, 0))
    ex.store_cell(st, cl.id, 8, 8, NULL)
    v.cover(ex, st)

    def ret(s, r):
        P = of(s, "push_stop_request")
        c.ob(s, "the thread's loop ends", len(P) == 1 and P[0][1].r == lo)
        c.ob(s, "the fragment's file is closed", not s.ghost["files"][c.fh]["open"])
        c.ob(s, "a lost connection does not make a fragment successful", z3.Implies(c.status(s) == SUCCESS, x == SUCCESS))
        c.same_plan(s)
    ex.run(st, fn(MC, r"^FileTransferClient::_onClose\("), [Ptr(c.this, 0), Ptr(cl.id, 0)], ret)


def t_thread(v):
    c = Cl(v, "_downloadThread")
    c.context(None, handle=False)
    ex, st = c.ex, c.st
    ex.store_cell(st, c.ctx, DO["client"], 8, NULL)
    ex.store_cell(st, c.ctx, DO["client"] + 8, 8, NULL)
    lo = ex.new_reg(st, "looper", "cells", 8).id
    ex.on(r"^cyclone::Looper::create_looper\(\)$", lambda ex, st, a, I: (rec(st, "create"), Ptr(lo, 0))[1])
    ex.on(r"^cyclone::Looper::destroy_looper\(", lambda ex, st, a, I: rec(st, "destroy", a[0]))
    tc = ex.new_reg(st, "tcpclient", "cells", LC.sizeof("cyclone::TcpClient")).id

    def make(ex, st, a, I):
        rec(st, "make", ex.load(st, a[1], _PtrTy()), ex.load(st, a[2], _PtrTy()))
        ex.store(st, a[0], Ptr(tc, 0), 8, I.line)
    ex.on(r"^std::shared_ptr<.*> std::make_shared<cyclone::TcpClient,", make)
    ex.on(r"^cyclone::Address::~?Address\(", lambda ex, st, a, I: rec(st, "address", *a))

    def connect(ex, st, a, I):
        b = {t[1] for k, t in st.ghost.get("fn", {}).items() if k[0] == tc and isinstance(t, tuple)}
        for f in ("_onConnected", "_onMessage", "_onClose"): c.ob(st, f"{f} is installed before the connection is started", any(x and f in str(x) for x in b), "callee precondition", I.line)
        c.ob(st, "the thread is in the connecting state before the connection is started", c.status(st) == CONNECTING, "callee precondition", I.line)
        rec(st, "connect", a[0])
        return bv(1, 1)
    ex.on(r"^cyclone::TcpClient::connect\(", connect)
    v.cover(ex, st)

    def ret(s, r):
        names = [t[0] for t in s.trace if t[0] in ("create", "make", "connect", "loop", "destroy")]
        c.ob(s, "the thread connects once and runs its loop to the end", names == ["create", "make", "connect", "loop", "destroy"])
        m = of(s, "make")
        c.ob(s, "the client knows its thread's context and loop", bool(m) and m[0][1].r == lo and m[0][2].r == c.ctx)
        c.same_plan(s)
    ex.run(st, fn(MC, r"^FileTransferClient::_downloadThread\("), [Ptr(c.this, 0), Ptr(c.ctx, 0)], ret)


# ---- the plan
class Plan(Houdini):
    def env(self, st, phis):
        e = super().env(st, phis)
        for g in self.ghosts:
            if g.name == "hcell": e[g] = st.ghost["hcell"] = self.c.handle(st)
        return e


def t_plan(v):
    cell = {}
    gs = ["k", "next", "pushed", "c", "J", "hcell"]

    def gen(ex, st, hdr, phis):
        c = cell["c"]
        g = {I.name: I for I in phis if isinstance(I, G)}
        K, NX, PU, CN, J, HC = (g[n] for n in gs)
        yield "everything planned is in the list", lambda e: e[K] == e[PU]
        yield "the plan is a prefix of the fragments", lambda e: e[NX] == c.P(z3.SignExt(32, e[K]))
        yield "the plan stays inside the file", lambda e: z3.ULE(e[NX], c.F)
        yield "the plan covers the file", lambda e: e[NX] == c.F
        yield "fragments are counted", lambda e: e[K] >= 0
        yield "no thread joined yet", lambda e: z3.And(e[CN] == 0, z3.Not(e[J]))
        yield "joined threads are counted once", lambda e: z3.And(e[CN] >= 0, e[CN] <= e[K] - z3.If(z3.And(c.j0 < e[K], z3.Not(e[J])), bv(1, 32), bv(0, 32)))
        yield "a thread is joined if its handle is gone", lambda e: e[HC] == z3.If(e[J], bv(0), c.H)
        yield "every thread joined", lambda e: z3.Implies(c.j0 < e[K], e[J])
        if "div" in st.ghost: yield "everything is planned", lambda e, n=st.ghost["div"]: n == (z3.SignExt(32, e[K]) if z3.is_bv(n) and n.size() == 64 else e[K])
        for I, x in phis.items():
            if isinstance(I, G) or not z3.is_bv(x): continue
            if x.size() == 32:
                yield f"{I.name} = planned", lambda e, I=I: e[I] == e[K]
                yield f"{I.name} = joined", lambda e, I=I: e[I] == e[CN]
                yield f"{I.name} >= 0", lambda e, I=I: e[I] >= 0
                yield f"{I.name} past the witness only if it succeeded", lambda e, I=I: z3.Implies(c.j0 < e[I], c.s0 == SUCCESS)
                yield f"{I.name} past the witness only if it succeeded (planned)", lambda e, I=I: z3.Implies(z3.And(c.j0 < e[I], c.j0 < e[K]), c.s0 == SUCCESS)
                yield f"{I.name} <= planned", lambda e, I=I: e[I] <= e[K]
                if "div" in st.ghost: yield f"{I.name} <= fragments", lambda e, I=I, n=st.ghost["div"]: z3.SignExt(32, e[I]) <= n
                if "div" in st.ghost: yield "planned <= fragments", lambda e, n=st.ghost["div"]: z3.SignExt(32, e[K]) <= n
                if "div" in st.ghost: yield "not all planned before the loop ends", lambda e, n=st.ghost["div"]: z3.Implies(z3.SignExt(32, e[K]) < n, e[NX] == c.P(z3.SignExt(32, e[K])))
                if "div" in st.ghost: yield "all planned covers the file", lambda e, n=st.ghost["div"]: z3.Implies(z3.SignExt(32, e[K]) == n, e[NX] == c.F)
            elif x.size() == 64:
                yield f"{I.name} = covered", lambda e, I=I: e[I] == e[NX]
                yield f"{I.name} = planned (64)", lambda e, I=I: e[I] == z3.SignExt(32, e[K])

    def mem(ex, st, hdr, phis):
        c = cell["c"]
        ex.store_cell(st, c.trk, DO["downloadThread"], 8, Ptr(0, st.ghost["hcell"]))
    h = Plan(re.compile(r"beginDownloadFile|FileTransferClient"), gen, mem=mem, ghosts=gs, max_rounds=40)
    h.terminates = False

    def make():
        c = cell["c"] = h.c = plan(v, h)
        return c.ex, c.go
    v.lemma("(k+1)*f <= F whenever k < n, f <= F div n (integers)", *intlemma())
    h.solve(make)


def intlemma():
    F_, n, q, f, k = z3.Ints("F n q f k")
    return [F_ >= 0, n > 0, q * n <= F_, 0 <= f, f <= q, 0 <= k, k < n, (k + 1) * f <= n * f, n * f <= n * q], (k + 1) * f <= F_


def plan(v, h):
    c = Cl(v, "beginDownloadFile")
    ex, st = c.ex, c.st
    h.attach(ex)
    ex.max_paths = 20000
    c.P = z3.Function("P", z3.BitVecSort(64), z3.BitVecSort(64))           # P(k) = k * fragment size
    c.j0, c.H, c.s0 = ex.fresh("witness", 32), ex.fresh("handle"), ex.fresh("status", 32)
    st.assume(c.j0 >= 0, c.H != 0, c.s0 >= 0, c.s0 <= ERROR)
    st.assume(z3.ULT(c.F, bv(1 << 62)), c.P(bv(0)) == 0)
    c.trk = ex.new_reg(st, "tracked", "cells", LC.sizeof("FileTransferClient::DownloadThreadContext")).id
    ex.store_cell(st, c.trk, DO["status"], 4, c.s0)
    ex.store_cell(st, c.trk, DO["downloadThread"], 8, Ptr(0, c.H))
    st.ghost.update(k=bv(0, 32), next=bv(0), pushed=bv(0, 32), c=bv(0, 32), J=F, hcell=c.H, other=())

    def handle(s):
        x = ex.load(s, Ptr(c.trk, DO["downloadThread"]), _PtrTy())
        return b64(x.off) if isinstance(x, Ptr) else x
    c.handle = handle
    orig = ex.arith

    def arith(s, op, a, b, I):
        r = orig(s, op, a, b, I)
        g = s.ghost
        if not (z3.is_bv(a) and z3.is_bv(b) and z3.is_bv(r)) or r.size() != 64: return r
        if op in ("udiv", "sdiv") and a.eq(c.F):
            if not is_c(b):                 # the quotient itself: only what the lemma and its definition give
                r = ex.fresh("share")
                s.assume(z3.Implies(b == 1, r == c.F))
            g["div"], g["fs"] = b, r
            s.assume(z3.ULE(r, c.F))
        elif op in ("udiv", "sdiv", "urem", "srem") and not is_c(r): return ex.fresh("quotient")         # figures for the log: any value
        elif op == "and" and "fs" in g and (a.eq(g["fs"]) or b.eq(g["fs"])): g["fs"] = r; s.assume(z3.ULE(r, c.F))
        elif op == "mul" and "fs" in g and (a.eq(g["fs"]) or b.eq(g["fs"])):
            x = b if a.eq(g["fs"]) else a
            r = c.P(x)
            s.assume(z3.Implies(z3.ULE(x, g["div"]), z3.ULE(c.P(x), c.F)))      # P's definition; the lemma
            s.assume(z3.Implies(z3.ULT(x, g["div"]), z3.And(c.P(x + 1) == c.P(x) + g["fs"], z3.ULE(c.P(x) + g["fs"], c.F), z3.ULE(c.P(x), c.P(x) + g["fs"]))))
        return r
    ex.arith = arith

    def create(ex, s, a, I):
        g = s.ghost
        q = ex.resolve(s, a[1])
        fld = lambda f, n: ex.load(s, Ptr(q.r, DO[f]), _IntTy(8 * n))
        k64 = z3.SignExt(32, g["k"])
        if "fs" in g:      # P's definition at k, and the lemma
            s.assume(z3.Implies(z3.And(k64 >= 0, k64 < g["div"]), z3.And(c.P(k64 + 1) == c.P(k64) + g["fs"], z3.ULE(c.P(k64 + 1), c.F), z3.ULE(c.P(k64), c.P(k64 + 1)))))
        o, n = fld("fileOffset", 8), fld("fragmentSize", 4)
        c.ob(s, "fragments are numbered 0, 1, ...", fld("index", 4) == g["k"], "callee precondition", I.line)
        c.ob(s, "a fragment starts where the one before ends", o == g["next"], "callee precondition", I.line)
        c.ob(s, "a fragment lies inside the file", z3.And(n >= 0, z3.ULE(o, c.F), z3.ULE(z3.SignExt(32, n), c.F - o)), "callee precondition", I.line)
        c.ob(s, "a fragment begins with nothing received and the initial checksum", z3.And(fld("receivedSize", 4) == 0, fld("fragmentCRC", 4) == 1), "callee precondition", I.line)
        c.ob(s, "the thread runs the download function", "_downloadThread" in str(stdfn.get(s, a[0])), "callee precondition", I.line)
        c.ob(s, "each context goes to one thread", g.get("last") is None, "callee precondition", I.line)
        g["next"], g["k"] = z3.simplify(g["next"] + z3.SignExt(32, n)), z3.simplify(g["k"] + 1)
        s.assume(g["k"] > 0)            # less than 2^31 fragments
        hd = ex.fresh("thread")
        s.assume(hd != 0)
        g["last"] = (q.r, hd)
        return Ptr(0, hd)
    ex.on(r"^cyclone::sys_api::thread_create\(", create)

    def push(ex, s, a, I):
        p = ex.load(s, a[1], _PtrTy(), I.line)
        L = s.ghost.get("last")
        c.ob(s, "a context is listed right after its thread was made", L is not None and isinstance(p, Ptr) and p.r == L[0], "callee precondition", I.line)
        if L is None: raise PathEnd()
        x = ex.load(s, Ptr(L[0], DO["downloadThread"]), _PtrTy())
        c.ob(s, "the context knows its thread", b64(x.off) == L[1], "callee precondition", I.line)
        s.ghost["pushed"], s.ghost["last"] = z3.simplify(s.ghost["pushed"] + 1), None
    V = r"^std::vector<FileTransferClient::DownloadThreadContext\*, .*>::"
    ex.on(V + r"(push_back|emplace_back)", push)
    ex.on(V + r"size\(\) const$", lambda ex, s, a, I: z3.SignExt(32, s.ghost["pushed"]))

    def at(ex, s, a, I):
        c.ob(s, "only listed contexts are looked at", z3.ULT(a[1], z3.SignExt(32, s.ghost["pushed"])), "memory", I.line)
        hit = a[1] == z3.SignExt(32, c.j0)

        def slot(s, rid):
            r = ex.new_reg(s, "slot", "cells", 8)
            ex.store_cell(s, r.id, 0, 8, Ptr(rid, 0))
            return Ptr(r.id, 0)

        def other(s):
            r = ex.new_reg(s, "other", "cells", LC.sizeof("FileTransferClient::DownloadThreadContext"))
            ex.store_cell(s, r.id, DO["downloadThread"], 8, Ptr(0, ex.fresh("otherthread")))
            s.ghost["other"] = s.ghost["other"] + (r.id,)
            return slot(s, r.id)
        return osm.alts(ex, s, [(hit, lambda s: slot(s, c.trk)), (z3.Not(hit), other)])
    ex.on(V + r"(operator\[\]|at)\(unsigned long\)( const)?$", at)

    def join(ex, s, a, I):
        x = b64(a[0].off) if isinstance(a[0], Ptr) else a[0]
        g = s.ghost
        c.ob(s, "only a running thread is joined", x != 0, "callee precondition", I.line)
        trk = z3.is_true(z3.simplify(x == c.handle(s))) or z3.is_true(z3.simplify(x == c.H))
        def yes(s):
            if trk:
                c.ob(s, "a thread is joined once", z3.Not(s.ghost["J"]), "callee precondition", I.line)
                s.ghost["J"] = T
            s.ghost["c"] = z3.simplify(s.ghost["c"] + 1)
            k = s.ghost["k"]
            s.assume(s.ghost["c"] > 0, s.ghost["c"] <= k - z3.If(z3.And(c.j0 < k, z3.Not(s.ghost["J"])), bv(1, 32), bv(0, 32)))       # cardinality
            return bv(1, 1)
        return osm.alts(ex, s, [(T, yes), (T, lambda s: bv(0, 1))])
    ex.on(r"^cyclone::sys_api::thread_join\(", join)
    inner = ex.access_hook

    def hook(ex, s, p, ty, w, line):
        if p.r == c.trk and p.off == DO["status"]: c.ob(s, "a thread's result is read only after it has ended", s.ghost["J"], "race", line)
        return inner(ex, s, p, ty, w, line) if inner else None
    ex.access_hook = hook
    got = ex.fresh("gotinfo", 8)
    st.assume(z3.ULE(got, 1))
    ex.store_cell(st, c.this, CO["m_bGotFileInfo"], 1, got)
    v.cover(ex, st)

    def ret(s, r):
        r = r if z3.is_bool(r) else r == 1
        g = s.ghost
        c.ob(s, "the download succeeds only if the fragments cover the file exactly", z3.Implies(r, z3.And(g["next"] == c.F, g["k"] == g["pushed"], g["k"] > 0)))
        c.ob(s, "the download succeeds only if every thread has ended", z3.Implies(z3.And(r, c.j0 < g["k"]), g["J"]))
        c.ob(s, "the download succeeds only if every fragment succeeded", z3.Implies(z3.And(r, c.j0 < g["k"]), c.s0 == SUCCESS))
        c.ob(s, "nothing is downloaded without file information", z3.Implies(got == 0, z3.And(z3.Not(r), g["k"] == 0)))
    c.go = lambda: ex.run(st, fn(MC, r"^FileTransferClient::beginDownloadFile\("), [Ptr(c.this, 0)], ret)
    return c


# ---- the combination
class Copy:
    """loops of combineFile: over the parts (index = ghost part), over the chunks of one part (ghost copied), over the files to delete"""
    def __init__(self, c): self.c = c

    def enter(self, ex, st, hdr, phis):
        c, g = self.c, st.ghost
        inp = [k for k, f in g["files"].items() if f["kind"] == "if" and f["open"]]
        i = ex.fresh("iter")
        if inp:
            k = inp[0]
            f = c.f(st, k)
            kind = "chunks"
            c.ob(st, "a part is copied from its start", z3.And(f["pos"] == 0, g["copied"] == 0), "loop invariant", hdr.insts[-1].line)
            st.assume(z3.ULE(i, f["length"]))
            g["copied"], g["out"], g["pend"] = i, ex.fresh("out"), None
            bad, eof = ex.fresh("bad", 1), ex.fresh("eof", 1)
            st.assume(z3.Implies(z3.Or(bad, eof), z3.Or(bad, i == f["length"])))
            c.f_upd(st, k, pos=i, bad=bad, eof=eof)
            for o, f in list(g["files"].items()):
                if f["kind"] == "of": c.f_upd(st, o, bad=z3.Or(f["bad"], ex.fresh("obad", 1)))
            self.havoc(ex, st)
        elif not any(f["open"] for f in g["files"].values()): kind = "delete"
        else:
            kind = "parts"
            c.ob(st, "the parts are copied from the first one on", g["part"] == 0, "loop invariant", hdr.insts[-1].line)
            st.assume(z3.ULE(i, c.n))
            g["part"], g["out"] = i, ex.fresh("out")
            for o, f in list(g["files"].items()):
                if f["kind"] == "of": c.f_upd(st, o, bad=z3.Or(f["bad"], ex.fresh("obad", 1)))
            self.havoc(ex, st)
        ints = [I for I in phis if z3.is_bv(phis[I]) and phis[I].size() > 8 and z3.is_bv_value(z3.simplify(phis[I])) and z3.simplify(phis[I]).as_long() == 0]
        for I in phis: phis[I] = (i if I.ty.size == 8 else z3.Extract(8 * I.ty.size - 1, 0, i)) if I in ints else (T if z3.is_bool(phis[I]) and z3.is_true(z3.simplify(phis[I])) else ex.fresh_of(I.ty, "loop"))
        return dict(kind=kind, i=i, ints=ints, out=g["out"], trace=len(st.trace))

    def havoc(self, ex, st):
        for r in list(st.mem.values()):
            if r.kind == "bytes" and r.heap and r.alive: st.wreg(r.id).content = CBase(f"buf{next(ex.fresh_n)}")

    def back(self, ex, st, hdr, phis, sv):
        c, g, line = self.c, st.ghost, hdr.insts[-1].line
        inv = lambda n, x: c.ob(st, n, x, "loop invariant", line)
        i = sv["i"]
        if sv["kind"] == "parts":
            inv("one part is copied per iteration", g["part"] == i + 1)
            for I in sv["ints"]: inv("the next part is the next fragment", phis[I] == (i + 1 if I.ty.size == 8 else z3.Extract(31, 0, i) + 1))
            inv("the output stays open", any(f["open"] and f["kind"] == "of" for f in g["files"].values()))
        elif sv["kind"] == "chunks":
            inv("what was read has been written", g["pend"] is None)
            for I in sv["ints"]: inv("the copied size is counted", phis[I] == (g["copied"] if I.ty.size == 8 else z3.Extract(31, 0, g["copied"])))
        else:
            for I in sv["ints"]: inv("every part's file is removed", phis[I] == (i + 1 if I.ty.size == 8 else z3.Extract(31, 0, i) + 1))


def t_combine(v):
    c = Cl(v, "combineFile")
    ex, st = c.ex, c.st
    c.n, fs = ex.fresh("contexts"), z3.Function("fragsize", z3.BitVecSort(64), z3.BitVecSort(32))
    st.assume(z3.ULT(c.n, bv(1 << 31)))
    st.ghost.update(part=bv(0), copied=bv(0), out=bv(0), pend=None, cur=None, begun=False)
    V = r"^std::vector<FileTransferClient::DownloadThreadContext\*, .*>::"
    ex.on(V + r"size\(\) const$", lambda ex, s, a, I: c.n)

    def at(ex, s, a, I):
        c.ob(s, "only listed contexts are looked at", z3.ULT(a[1], c.n), "memory", I.line)
        r = ex.new_reg(s, "ctx", "cells", LC.sizeof("FileTransferClient::DownloadThreadContext"))
        s.assume(fs(a[1]) >= 0)
        ex.store_cell(s, r.id, DO["fragmentSize"], 4, fs(a[1]))
        s.ghost["str"] = {**s.ghost["str"], (r.id, DO["strFileName"]): (("part", a[1].sexpr()),)}
        s.ghost["idx"] = {**s.ghost.get("idx", {}), a[1].sexpr(): a[1]}
        w = ex.new_reg(s, "slot", "cells", 8)
        ex.store_cell(s, w.id, 0, 8, Ptr(r.id, 0))
        return Ptr(w.id, 0)
    ex.on(V + r"(operator\[\]|at)\(unsigned long\)( const)?$", at)
    rd, wr, op = c.f_read, c.f_write, c.f_open
    F_ = r"^std::basic_(if|of)stream<char, .*>::"

    def opened(ex, s, a, I):
        r = op(ex, s, a, I)
        for x, _ in (r.alts if isinstance(r, Alts) else [(s, None)]):
            t = x.trace[-1]
            if t[4] and c.f(x, t[1])["kind"] == "if":
                nm = t[2]
                ok = len(nm) == 1 and nm[0][0] == "part"
                c.ob(x, "what is copied is the part of the next fragment", z3.And(z3.BoolVal(ok), x.ghost["idx"][nm[0][1]] == x.ghost["part"]) if ok else F, "callee precondition", I.line)
                if not ok: continue
                x.ghost["cur"], x.ghost["copied"], x.ghost["pend"] = (t[1], x.ghost["idx"][nm[0][1]]), bv(0), None
                c.ob(x, "parts are read as they were written (binary)", bool(t[3] & 4), "callee precondition", I.line)
            elif t[4]: c.ob(x, "the output is made anew under the file's name (binary)", t[2] == (("name",),) and t[3] & 4 and not t[3] & 1 and not x.ghost["begun"], "callee precondition", I.line); x.ghost["begun"] = True
        return r
    ex.on(F_ + r"open\(", opened)

    def read(ex, s, a, I):
        c.ob(s, "what was read before has been written", s.ghost["pend"] is None, "callee precondition", I.line)
        r = rd(ex, s, a, I)
        t = s.trace[-1]
        s.ghost["pend"] = (t[2], t[4])
        return r
    ex.on(r"^std::basic_istream<char, .*>::read\(", read)

    def write(ex, s, a, I):
        r = wr(ex, s, a, I)
        t, p = s.trace[-1], s.ghost["pend"]
        if p is None:
            c.ob(s, "only what was read is written", t[3] == 0, "callee precondition", I.line)
            return r
        d, i = s.ghost["files"][s.ghost["cur"][0]]["data"], ex.fresh("i")
        c.ob(s, "exactly the bytes read are written, in order", z3.And(t[3] == p[1], p[0] == s.ghost["copied"], z3.Implies(z3.ULT(i, p[1]), t[2](i) == d(z3.simplify(p[0] + i)))), "callee precondition", I.line)
        s.ghost["copied"], s.ghost["pend"] = z3.simplify(s.ghost["copied"] + p[1]), None
        return r
    ex.on(r"^std::basic_ostream<char, .*>::write\(", write)
    cl = c.f_close

    def close(ex, s, a, I, dtor=False):
        k = c.fk(s, a[0])
        cur = s.ghost["cur"]
        if cur and cur[0] == k and c.f(s, k)["open"]:
            s.ghost["part"], s.ghost["cur"] = s.ghost["part"] + 1, None
            s.ghost["whole"] = s.ghost.get("whole", ()) + ((s.ghost["pend"] is None, z3.And(s.ghost["copied"] == z3.SignExt(32, fs(cur[1])))),)
        cl(s, a[0], I, dtor)
    ex.on(F_ + r"close\(\)$", lambda ex, s, a, I: close(ex, s, a, I))
    ex.on(F_ + r"~basic_[io]fstream\(\)$", lambda ex, s, a, I: close(ex, s, a, I, True))
    good = lambda s: z3.And(s.ghost["part"] == c.n, z3.BoolVal(not any(f["open"] for f in s.ghost["files"].values() if f["kind"] == "of")), z3.BoolVal(s.ghost["begun"]), *[z3.Not(f["bad"]) for f in s.ghost["files"].values() if f["kind"] == "of"])

    def remove(ex, s, a, I):
        c.ob(s, "a part is removed only after the whole file was written and closed without failure", good(s), "callee precondition", I.line)
        return ex.fresh("removed", 32)
    ex.on(r"^remove$", remove)
    lp = Copy(c)
    b0 = lp.back

    def back(ex, s, hdr, phis, sv):
        if sv["kind"] == "parts":
            for p, x in s.ghost.get("whole", ()): c.ob(s, "the next part is begun only after this one was copied whole", z3.And(z3.BoolVal(p), x), "loop invariant", hdr.insts[-1].line)
        b0(ex, s, hdr, phis, sv)
    lp.back = back
    ex.loop_specs.append((re.compile(r"."), None, lp))
    v.cover(ex, st)

    def ret(s, r):
        r = r if z3.is_bool(r) else r == 1
        c.ob(s, "the file is complete: every part copied, in order, and the output closed without failure", z3.Implies(r, good(s)))
    ex.run(st, fn(MC, r"^FileTransferClient::combineFile\("), [Ptr(c.this, 0)], ret)


# ---- the query
def lam(want):
    c = [d for d in MC.bydem if re.match(r"^FileTransferClient::queryFileInfo\(.*lambda\(.*\}::operator\(\)\(", d) and MC.has(MC.bydem[d])]
    o = [d for d in c if want(d)]
    if not o: raise bld.BuildError("queryFileInfo's callbacks not found")
    return o


def t_query(v):
    c = Cl(v, "queryFileInfo: the reply")
    ex, st = c.ex, c.st
    cn, h = c.conn("conn")
    v0 = c.view(st, cn)
    lam0 = ex.new_reg(st, "closure", "cells", 8)
    ex.store_cell(st, lam0.id, 0, 8, Ptr(c.this, 0))
    ex.store_cell(st, c.this, CO["m_bGotFileInfo"], 1, bv(0, 8))
    ex.store_cell(st, c.this, CO["m_threadTounts"], 4, bv(0, 32))
    cl = ex.new_reg(st, "sp_client", "cells", 16)
    ex.store_cell(st, cl.id, 0, 8, Ptr(ex.new_reg(st, "tcpclient", "cells", 8).id, 0))
    ex.store_cell(st, cl.id, 8, 8, NULL)
    hs, nl = le(v0.sel, 0, 4), le(v0.sel, 20, 4)

    def text(st, q, I):
        end = z3.SignExt(32, nl) + 24
        in_msg = z3.And(b64(q.off) == 24, nl >= 1, z3.ULE(end, z3.SignExt(32, hs)), z3.ULE(end, v0.size), v0.sel(z3.simplify(end - 1)) == 0)
        last = z3.And(b64(q.off) == 24, hs > 24, z3.ULE(z3.SignExt(32, hs), v0.size), v0.sel(z3.simplify(z3.SignExt(32, hs) - 1)) == 0)
        c.ob(st, "the file name ends inside the message", z3.Or(in_msg, last), "memory", I.line)
        return (("reply name",),)
    c.message_text = text
    nz = rb.install

    def norm_(ex, st, a, I):
        q = ex.resolve(st, a[0])
        v = rb.view(ex, st, rlay, q.r, q.off)
        r = ex.new_reg(st, "normalized", "bytes", v.size)
        r.const = True
        st.mem[r.id].content = CFun(lambda i: v.sel(i))
        st.ghost["message"] = st.ghost.get("message", ()) + (r.id,)
        return Ptr(r.id, 0)
    ex.on(r"^cyclone::RingBuf::normalize\(", norm_)
    v.cover(ex, st)

    def ret(s, r):
        got = ex.load(s, Ptr(c.this, CO["m_bGotFileInfo"]), _IntTy(8))
        whole = z3.And(z3.UGE(v0.size, bv(8)), hs >= 24, z3.ULE(z3.SignExt(32, hs), v0.size), le(v0.sel, 4, 4) == 2)
        c.ob(s, "file information is taken only from a whole reply", z3.Implies(got != 0, whole))
        c.ob(s, "the file's size and the thread count are what the reply says", z3.Implies(got != 0, z3.And(ex.load(s, Ptr(c.this, CO["m_fileSize"]), _IntTy(64)) == le(v0.sel, 8, 8), ex.load(s, Ptr(c.this, CO["m_threadTounts"]), _IntTy(32)) == le(v0.sel, 16, 4))))
        c.ob(s, "the file's name is what the reply says", z3.Implies(got != 0, z3.BoolVal(s.ghost["str"].get((c.this, CO["m_strFileName"])) == (("reply name",),))))
        good = z3.And(whole, nl >= 1, nl <= hs - 24, v0.sel(z3.simplify(z3.SignExt(32, nl) + 23)) == 0)
        c.ob(s, "a good reply is accepted", z3.Implies(good, got != 0))
        c.ob(s, "the connection is closed after the reply, or when it is not one", z3.Implies(z3.And(z3.UGE(v0.size, bv(8)), z3.Or(hs < 0, z3.ULE(z3.SignExt(32, hs), v0.size))), z3.BoolVal(bool(of(s, "shutdown")))))
        c.ob(s, "an incomplete reply is waited for", z3.Implies(z3.Or(z3.ULT(v0.size, bv(8)), z3.And(hs > 0, z3.UGT(z3.SignExt(32, hs), v0.size))), z3.BoolVal(not of(s, "shutdown"))))
    f = [d for d in lam(lambda d: not d.rstrip(" const").endswith("bool)")) if "get_input_buf" in str(callees(MC, d))]
    if len(f) != 1: raise bld.BuildError("the reply callback is not found")
    ex.run(st, f[0], [Ptr(lam0.id, 0), Ptr(cl.id, 0), Ptr(h, 0)], ret)


def callees(M, d):
    f = M.fn(M.bydem[d])
    return [M.dem.get(getattr(I.extra, "val", None), "") for b in f.blocks.values() for I in b.insts if I.op in ("call", "invoke")] if isinstance(f.blocks, dict) else [M.dem.get(getattr(I.extra, "val", None), "") for b in f.blocks for I in b.insts if I.op in ("call", "invoke")]


# ------------------------------------------------------------------- server
class Sv(X):
    def __init__(self, v, name, status=None):
        super().__init__(v, name, MS, True)
        ex, st = self.ex, self.st
        self.this = ex.new_reg(st, "server", "cells", LS.sizeof("FileTransferServer")).id
        self.F, self.n, self.i, self.busy = ex.fresh("fileSize"), ex.fresh("contexts"), ex.fresh("index", 32), ex.fresh("working", 32)
        st.assume(z3.ULT(self.n, bv(1 << 31)), self.i >= 0, z3.ULT(z3.SignExt(32, self.i), self.n), z3.ULT(self.F, bv(1 << 62)))
        ex.store_cell(st, self.this, SO["m_fileSize"], 8, self.F)
        ex.store_cell(st, self.this, SO["m_workingCounts"], 4, self.busy)
        st.ghost["str"] = {(self.this, SO["m_strFileName"]): (("base",),), (self.this, SO["m_strPathName"]): (("path",),)}
        self.ctx = c = ex.new_reg(st, "context", "cells", LS.sizeof("FileTransferServer::ThreadContext")).id
        self.fh = (c, TO["fileHandle"])
        self.st0 = ex.fresh("status", 32) if status is None else bv(status, 32)
        st.assume(self.st0 >= 0, self.st0 <= COMPLETED)
        self.ob0, self.on0, self.oe0, self.crc0 = ex.fresh("offsetBegin"), ex.fresh("offsetNow"), ex.fresh("offsetEnd"), ex.fresh("crc", 32)
        st.assume(z3.ULE(self.ob0, self.on0), z3.ULE(self.on0, self.oe0), z3.ULE(self.oe0, self.F))
        for f, k, x in [("status", 4, self.st0), ("offsetBegin", 8, self.ob0), ("offsetNow", 8, self.on0), ("offsetEnd", 8, self.oe0), ("fragmentCRC", 4, self.crc0), ("sendSpeed", 4, ex.fresh("speed", 32))]: ex.store_cell(st, c, TO[f], k, x)
        b = ex.new_reg(st, "filebuffer", "bytes", 64 * 1024)
        b.heap = True
        self.buf = b.id
        ex.store_cell(st, c, TO["buffer"], 8, Ptr(b.id, 0))
        self.a, self.ah = self.conn("conn")              # the connection the call is about
        self.b, self.bh = self.conn("other")
        w = ex.new_reg(st, "slot", "cells", 8)
        ex.store_cell(st, w.id, 0, 8, Ptr(c, 0))
        self.slot = w.id
        V = r"^std::vector<FileTransferServer::ThreadContext\*, .*>::"
        ex.on(V + r"size\(\) const$", lambda ex, s, a, I: self.n)

        def at(ex, s, a, I):
            self.ob(s, "the context is the work thread's own", a[1] == z3.SignExt(32, self.i), "callee precondition", I.line)
            return Ptr(self.slot, 0)
        ex.on(V + r"(operator\[\]|at)\(unsigned long\)( const)?$", at)
        ex.on(r"^std::atomic<float>::operator=\(float\)$", lambda ex, s, a, I: a[1])
        ex.on(r"^std::atomic<float>::(load|store)\(", lambda ex, s, a, I: ex.fresh_of(I.ty, "speed") if I.ty is not None and getattr(I.ty, "size", 0) else None)

    def owner(self, who):
        self.ex.store_cell(self.st, self.ctx, TO["conn"], 8, {"a": Ptr(self.a, 0), "b": Ptr(self.b, 0), None: NULL}[who])
        self.ex.store_cell(self.st, self.ctx, TO["conn"] + 8, 8, NULL)

    def fld(self, s, f, n): return self.ex.load(s, Ptr(self.ctx, TO[f]), _IntTy(8 * n))
    def own(self, s): return sptr.get(self.ex, s, Ptr(self.ctx, TO["conn"]))
    def same(self, s, what, st=True):
        self.ob(s, what, z3.And(*([self.fld(s, "status", 4) == self.st0] if st else []), self.fld(s, "offsetBegin", 8) == self.ob0, self.fld(s, "offsetNow", 8) == self.on0, self.fld(s, "offsetEnd", 8) == self.oe0, self.fld(s, "fragmentCRC", 4) == self.crc0))


def each_owner(*who):
    def deco(f):
        def g(v):
            for w in who: f(v, w)
        return g
    return deco


@each_owner("b", None)
def t_sconnected(v, who):
    c = Sv(v, "_onClientConnected", None if who else IDLE)
    c.owner(who)
    ex, st = c.ex, c.st
    if who: st.assume(c.st0 != IDLE)
    v.cover(ex, st)

    def ret(s, r):
        if who:
            c.ob(s, "a second connection of a busy thread is refused", any(t[1] == c.a for t in of(s, "shutdown")))
            c.ob(s, "the connection being served is not touched", z3.And(z3.BoolVal(c.own(s).r == c.b and not any(t[1] == c.b for t in of(s, "shutdown"))), c.fld(s, "status", 4) == c.st0, ex.load(s, Ptr(c.this, SO["m_workingCounts"]), _IntTy(32)) == c.busy))
            c.same(s, "the transfer in progress is left alone")
        else:
            c.ob(s, "an idle thread serves the connection", z3.And(z3.BoolVal(c.own(s).r == c.a and not of(s, "shutdown")), c.fld(s, "status", 4) == CONNECTED, ex.load(s, Ptr(c.this, SO["m_workingCounts"]), _IntTy(32)) == c.busy + 1))
    ex.run(st, fn(MS, r"^FileTransferServer::_onClientConnected\("), [Ptr(c.this, 0), c.i, Ptr(c.ah, 0)], ret)


@each_owner("a", "b", None)
def t_sclose(v, who):
    c = Sv(v, "_onClientClose", None if who else IDLE)
    c.owner(who)
    ex, st = c.ex, c.st
    if who: st.assume(c.st0 != IDLE)
    st.trace[:]
    c.f_make(st, c.fh, "if")
    sending = ex.feasible(st, c.st0 == SENDING)
    for opened in ((False, True) if sending else (False,)):
        s0 = st.clone()
        s0.assume((c.st0 == SENDING) if opened else (c.st0 != SENDING))
        if opened: c.f_upd(s0, c.fh, open=True, length=c.F, data=c.data_of("f"), name=(("path",),))

        def ret(s, r, opened=opened):
            w = ex.load(s, Ptr(c.this, SO["m_workingCounts"]), _IntTy(32))
            if who == "a":
                c.ob(s, "the thread is idle again, its file closed", z3.And(z3.BoolVal(c.own(s).r == 0 and not s.ghost["files"][c.fh]["open"]), c.fld(s, "status", 4) == IDLE, w == c.busy - 1))
            else:
                c.ob(s, "the end of a refused connection does not touch the one being served", z3.And(z3.BoolVal(c.own(s).r == (c.b if who else 0) and s.ghost["files"][c.fh]["open"] == opened), w == c.busy))
                c.same(s, "the transfer in progress is left alone")
            c.ob(s, "nothing is sent", not of(s, "send"))
        v.cover(ex, s0)
        ex.run(s0, fn(MS, r"^FileTransferServer::_onClientClose\("), [Ptr(c.this, 0), c.i, Ptr(c.ah, 0)], ret)


@each_owner("a", "b", None)
def t_smessage(v, who):
    c = Sv(v, "_onClientMessage", None if who else IDLE)
    c.owner(who)
    ex, st = c.ex, c.st
    if who: st.assume(c.st0 != IDLE)
    c.f_make(st, c.fh, "if")
    st.assume(c.st0 != SENDING) if who != "a" else None
    v0 = c.view(st, c.a)
    V = v0.sel
    hs, idm, off, fs = le(V, 0, 4), le(V, 4, 4), le(V, 8, 8), le(V, 16, 4)
    v.cover(ex, st)
    mine = z3.And(z3.BoolVal(who == "a"), c.st0 == CONNECTED)

    def ret(s, r):
        S, D, O = of(s, "send"), [t for t in of(s, "shutdown") if t[1] == c.a], [t for t in of(s, "open")]
        n = c.fld(s, "status", 4)
        B = z3.BoolVal
        opened = any(t[4] for t in O)
        c.ob(s, "no other connection is closed", len(D) == len(of(s, "shutdown")))
        c.ob(s, "only the connection being served is answered, and only before a transfer", z3.Implies(z3.Not(mine), B(bool(D) and not S and not O)))
        whole = z3.And(z3.UGE(v0.size, bv(8)), hs >= 8, z3.ULE(z3.SignExt(32, hs), v0.size))
        c.ob(s, "an incomplete message is waited for", z3.Implies(z3.And(mine, z3.Or(z3.ULT(v0.size, bv(8)), z3.And(hs >= 24, z3.UGT(z3.SignExt(32, hs), v0.size)))), B(not S and not O and not D)))
        c.ob(s, "nothing is answered before the whole message is here, nor to a message with an impossible size", z3.Implies(B(bool(S or O)), whole))
        inside = z3.And(whole, hs >= 24, fs >= 0, z3.ULE(off, c.F), z3.ULE(z3.SignExt(32, fs), c.F - off))
        c.ob(s, "the file is opened only for a fragment inside it", z3.Implies(B(bool(O)), z3.And(idm == 3, inside)))
        c.ob(s, "a fragment that is not inside the file is refused", z3.Implies(z3.And(mine, whole, idm == 3, z3.Not(inside)), B(bool(D) and not S)))
        c.ob(s, "a fragment inside the file is served", z3.Implies(z3.And(mine, inside, idm == 3), B(bool(O))))
        for t in O: c.ob(s, "the file served is the one prepared (binary)", t[2] == (("path",),) and t[3] & 4 and t[3] & 8)
        if not opened: c.same(s, "no transfer begins otherwise")
        else:
            c.ob(s, "the transfer covers exactly the fragment asked for", z3.And(n == SENDING, c.fld(s, "offsetBegin", 8) == off, c.fld(s, "offsetNow", 8) == off, c.fld(s, "offsetEnd", 8) == off + z3.SignExt(32, fs), c.fld(s, "fragmentCRC", 4) == 1))
            cb = of(s, "on_send_complete")
            c.ob(s, "the data follows when the announcement is sent", len(cb) == 1 and cb[0][1] == c.a and "_onSendReady" in str(cb[0][2]))
            c.ob(s, "the announcement is sent, once", len(S) == 1)
            for t in S: c.ob(s, "the announcement names the fragment", z3.And(B(t[1] == c.a), t[3] == 24, le(t[2], 0, 4) == 24, le(t[2], 4, 4) == 4, le(t[2], 8, 8) == off, le(t[2], 16, 4) == fs))
        if O and not opened: c.ob(s, "a file that cannot be opened ends the connection", bool(D) and not S)
        if S and not O:
            c.ob(s, "file information is sent once, on request", z3.And(B(len(S) == 1), idm == 1))
            t = S[0]
            L = c.tlen(s, (("base",),))
            i = ex.fresh("i")
            nm = [r for r, x in s.ghost["cstr"].items() if x == (("base",),)]
            c.ob(s, "the reply says the file's size and the number of threads", z3.And(B(t[1] == c.a), t[3] == L + 25, z3.SignExt(32, le(t[2], 0, 4)) == L + 25, le(t[2], 4, 4) == 2, le(t[2], 8, 8) == c.F, z3.SignExt(32, le(t[2], 16, 4)) == c.n, z3.SignExt(32, le(t[2], 20, 4)) == L + 1))
            c.ob(s, "the reply carries the file's name, terminated", z3.And(B(bool(nm)), z3.Implies(z3.ULE(i, L), t[2](z3.simplify(bv(24) + i)) == s.mem[nm[0]].content.sel(i))) if nm else F)
            c.consumed(s, c.a, v0, z3.SignExt(32, hs), "exactly the request is consumed")
        a = s.clone()
        a.assume(mine, whole, idm == 1)
        if ex.feasible(a): c.ob(a, "a request for file information is answered", len(S) == 1)
    ex.run(st, fn(MS, r"^FileTransferServer::_onClientMessage\("), [Ptr(c.this, 0), c.i, Ptr(c.ah, 0)], ret)


def t_sready(v):
    c = Sv(v, "_onSendReady", SENDING)
    c.owner("a")
    ex, st = c.ex, c.st
    n, d = ex.fresh("length"), c.data_of("served")
    st.assume(z3.ULT(n, bv(1 << 62)))
    c.f_make(st, c.fh, "if", open=True, length=n, data=d, name=(("path",),), pos=ex.fresh("filepos"))
    v.cover(ex, st)

    def ret(s, r):
        S, A, D, CB = of(s, "send"), of(s, "adler"), of(s, "shutdown"), of(s, "on_send_complete")
        R, B = of(s, "read"), z3.BoolVal
        now, end = c.fld(s, "offsetNow", 8), c.oe0
        c.ob(s, "only this connection is used", all(t[1] == c.a for t in S + D + CB))
        c.ob(s, "the fragment's bounds are left alone", z3.And(c.fld(s, "offsetBegin", 8) == c.ob0, c.fld(s, "offsetEnd", 8) == end))
        c.ob(s, "the file is read at the transfer's position", all(True for _ in R) and len(R) == 1)
        for t in R: c.ob(s, "the file is read at the transfer's position", t[2] == c.on0)
        done = z3.And(now == end, B(not D))
        sent = z3.If(B(bool(D)), bv(0), now - c.on0)
        if D:
            c.ob(s, "a transfer is given up only if the file cannot be read, and then nothing is sent", z3.And(B(not S), R[0][4] == 0, z3.ULT(c.on0, end)) if R else F)
            return
        c.ob(s, "the transfer moves on and stays inside the fragment", z3.And(z3.ULE(c.on0, now), z3.ULE(now, end), z3.Or(now != c.on0, c.on0 == end)))
        fin = z3.simplify(now == end)
        i = ex.fresh("i")
        c.ob(s, "the next bytes of the file are sent, once", len(S) >= 1)
        if not S: return
        t = S[0]
        c.ob(s, "the bytes sent are the fragment's next bytes", z3.And(t[3] == sent, z3.Implies(z3.ULT(i, t[3]), t[2](i) == d(z3.simplify(c.on0 + i)))))
        c.ob(s, "the checksum covers exactly the bytes sent", z3.And(B(len(A) == 1), A[0][1] == c.crc0, A[0][3] == sent, z3.Implies(z3.ULT(i, sent), A[0][2](i) == d(z3.simplify(c.on0 + i))), c.fld(s, "fragmentCRC", 4) == A[0][4]) if A else F)
        c.ob(s, "the end is announced exactly when the last byte was sent", z3.And(B(len(S) == 2) == (now == end), B(len(S) <= 2)))
        c.ob(s, "the state follows", z3.If(now == end, c.fld(s, "status", 4) == COMPLETED, c.fld(s, "status", 4) == SENDING))
        c.ob(s, "the file is closed exactly at the end", B(s.ghost["files"][c.fh]["open"]) == (now != end))
        last = CB[-1][2] if CB else None
        c.ob(s, "no more data is asked for after the end", z3.Implies(now == end, B(last is stdfn.EMPTY or getattr(last, "present", None) is F)))
        c.ob(s, "the transfer goes on otherwise", z3.Implies(now != end, B(not CB or "_onSendReady" in str(last))))
        if len(S) == 2 and A: c.ob(s, "the end message carries the checksum of the whole fragment", z3.And(S[1][3] == 12, le(S[1][2], 0, 4) == 12, le(S[1][2], 4, 4) == 5, le(S[1][2], 8, 4) == A[0][4]))
    ex.run(st, fn(MS, r"^FileTransferServer::_onSendReady\("), [Ptr(c.this, 0), c.i, Ptr(c.ah, 0)], ret)


def t_sthread(v):
    c = Sv(v, "_onWorkThreadStart")
    c.owner(None)
    ex, st = c.ex, c.st
    ex.on(r"^cyclone::Looper::register_timer_event\(", lambda ex, s, a, I: ex.fresh("id", 32))
    v.cover(ex, st)

    def ret(s, r):
        b = ex.load(s, Ptr(c.ctx, TO["buffer"]), _PtrTy())
        c.ob(s, "a work thread starts idle, with a buffer of its own", z3.And(c.fld(s, "status", 4) == IDLE, z3.BoolVal(b.r != 0 and b.r != c.buf), z3.UGE(b64(s.mem[b.r].size), bv(64 * 1024)) if b.r else F))
    ex.run(st, fn(MS, r"^FileTransferServer::_onWorkThreadStart\("), [Ptr(c.this, 0), c.i, Ptr(ex.new_reg(st, "looper", "cells", 8).id, 0)], ret)


def tasks(tier):
    return [("client: the plan (beginDownloadFile)", t_plan), ("client: _onConnected", t_connected), ("client: _onReceiveFragmentBegin", t_begin_fragment), ("client: _onReceiveFileData", t_data),
            ("client: _onReceiveFragmentEnd", t_end), ("client: _onMessage", t_message), ("client: _onClose", t_closed), ("client: _downloadThread", t_thread), ("client: combineFile", t_combine),
            ("client: file information", t_query), ("server: _onClientConnected", t_sconnected), ("server: _onClientClose", t_sclose), ("server: messages", t_smessage), ("server: _onSendReady", t_sready),
            ("server: _onWorkThreadStart", t_sthread)]


def replay(failed, errors, seed, tier):
    H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "ft_harness.cpp")
    src = []
    for d, _, fs in os.walk(os.path.join(bld.REPO, "source")):
        src += [os.path.relpath(os.path.join(d, f), bld.REPO) for f in fs if f.endswith(".cpp") and "kqueue" not in f]
    b = bld.native("ft", H, sorted(src), extra=["samples/filetransfer"], flags=nat.ASAN, libs=("-pthread", "-ldl"))
    return nat.confirm(b, [], [], seed, 90)


native_search = True
