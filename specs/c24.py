"""C24: text helpers and the logger (process_get_module_name, local_time_now, size_to_string, every function of the logger)."""
import z3, re, os
from dv import build as bld, libc, nat
from dv.exec import *
from dv.exec import _IntTy, _PtrTy
from . import osm, ctext
from .osm import rec, calls

TITLE = "C24"
M = L = None
LOG, SYS, STR = "source/cyCore/core/cyc_logger.cpp", "source/cyCore/core/cyc_system_api.cpp", "source/cyUtility/utility/cyu_string_util.cpp"
SRC = [LOG, SYS, STR]
FIELDS = ["file_path", "file_path_name", "lock", "level_name", "level_threshold", "logpath_created"]
TRUSTED = libc.TRUST_TEXT + ctext.TRUST + ["fopen/fprintf/fclose/access/mkdir: as POSIX describes; a stream writes what it is given", "mutexes by C20's contract",
           "vsnprintf: the same format and arguments give the same length each time, less than 2^31-1"]
ASSUMPTIONS = ["the result of get_log_filename is used before the next set_log_filename", "the message's arguments match its format; file paths contain no NUL", "sizes given as float are not NaN",
               "sizes given as integers are first rounded to float (relative error at most 2^-24)"]
LEVELS = 6


def build():
    global M, L, OFF
    M, L = bld.module(SRC)
    OFF = {f: L.off("cyclone::DiskLogFile", f, FIELDS) for f in FIELDS}


def key(ex, st, p):
    q = ex.resolve(st, p)
    return (q.r, q.off if isinstance(q.off, int) else cval(q.off))


def sget(ex, st, p):
    k = key(ex, st, p)
    return st.ghost["str"].get(k, (("?", k),))


def sput(ex, st, p, v): st.ghost["str"] = {**st.ghost["str"], key(ex, st, p): tuple(v)}


def norm(v):
    o = []
    for x in v:
        if isinstance(x, str) and o and isinstance(o[-1], str): o[-1] += x
        elif x != "": o.append(x)
    return tuple(o)


def text_of(ex, st, p, I):
    """a C string as a string value"""
    t = ctext.literal(ex, st, p)
    if t is not None: return (t,)
    q = ex.resolve(st, p)
    for r, v in st.ghost.get("cstr", {}).items():
        if r == q.r: return v
    n = ctext.length(ex, st, p, "the text a string is made from", I.line)
    return (("chars", q.r, z3.simplify(b64(q.off)).sexpr()),)


class Lg:
    def __init__(self, v, name):
        self.ex = ex = v.exec(M, name)
        libc.install(ex)
        ctext.install(ex)
        on = ex.on
        nop = lambda ex, st, a, I: None
        S = r"^std::(__cxx11::)?basic_string<char, .*>::"
        on(S + r"basic_string\(\)$", lambda ex, st, a, I: sput(ex, st, a[0], ()))
        on(S + r"~basic_string\(\)$", nop)
        on(S + r"basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$", lambda ex, st, a, I: sput(ex, st, a[0], text_of(ex, st, a[1], I)))
        on(S + r"basic_string\(std::(__cxx11::)?basic_string<.*(const&|&&)\)$", lambda ex, st, a, I: sput(ex, st, a[0], sget(ex, st, a[1])))
        on(S + r"(operator=|assign)\(char const\*\)$", lambda ex, st, a, I: (sput(ex, st, a[0], text_of(ex, st, a[1], I)), a[0])[1])
        on(S + r"(operator=|assign)\(std::(__cxx11::)?basic_string<.*(const&|&&)\)$", lambda ex, st, a, I: (sput(ex, st, a[0], sget(ex, st, a[1])), a[0])[1])
        on(S + r"(operator\+=|append)\(char const\*\)$", lambda ex, st, a, I: (sput(ex, st, a[0], norm(sget(ex, st, a[0]) + text_of(ex, st, a[1], I))), a[0])[1])
        on(S + r"(operator\+=|append)\(std::(__cxx11::)?basic_string<.*const&\)$", lambda ex, st, a, I: (sput(ex, st, a[0], norm(sget(ex, st, a[0]) + sget(ex, st, a[1]))), a[0])[1])
        on(S + r"(operator\+=|push_back)\(char\)$", lambda ex, st, a, I: (sput(ex, st, a[0], norm(sget(ex, st, a[0]) + (chr(z3.simplify(a[1]).as_long()),))), a[0])[1])
        on(S + r"(c_str|data)\(\)( const)?$", self.c_str)
        on(r"^std::(__cxx11::)?basic_string<char, .*std::operator\+<char, .*\(.*char const\*\)$", lambda ex, st, a, I: sput(ex, st, a[0], norm(sget(ex, st, a[1]) + text_of(ex, st, a[2], I))))
        on(r"^std::(__cxx11::)?basic_string<char, .*std::operator\+<char, .*\(std::(__cxx11::)?basic_string<.*, std::(__cxx11::)?basic_string<.*\)$", lambda ex, st, a, I: sput(ex, st, a[0], norm(sget(ex, st, a[1]) + sget(ex, st, a[2]))))
        on(r"^std::(__new_)?allocator<char>::~?(__new_)?allocator\(\)$", nop)
        on(r"^cyclone::sys_api::mutex_create\(\)$", lambda ex, st, a, I: Ptr(0, bv(500)))
        on(r"^cyclone::sys_api::mutex_lock\(", lambda ex, st, a, I: self.lock(st, a[0], True, I))
        on(r"^cyclone::sys_api::mutex_unlock\(", lambda ex, st, a, I: self.lock(st, a[0], False, I))
        on(r"^(::)?access$", lambda ex, st, a, I: (rec(st, "access", text_of(ex, st, a[0], I)), ex.fresh("missing", 32))[1])
        on(r"^(::)?mkdir$", lambda ex, st, a, I: (rec(st, "mkdir", text_of(ex, st, a[0], I), e := ex.fresh("mkdir_result", 32)), e)[1])
        on(r"^fopen(64)?$", self.fopen)
        on(r"^fprintf$", lambda ex, st, a, I: self.out(st, a[0], ctext.formatted(ex, st, a[1], a[2:], I.line), I))
        on(r"^fputs$", lambda ex, st, a, I: self.out(st, a[1], [("text", a[0], ctext.length(ex, st, a[0], "the text given to fputs", I.line))], I))
        on(r"^fflush$", nop)
        on(r"^fclose$", self.fclose)
        on(r"^vsnprintf$", self.vsnprintf)
        on(r"^localtime_r$", lambda ex, st, a, I: (rec(st, "localtime", ex.load(st, a[0], _IntTy(64), I.line), a[1]), a[1])[1])
        on(r"^time$", lambda ex, st, a, I: (rec(st, "time", t := ex.fresh("now")), t)[1])
        on(r"^getpid$", lambda ex, st, a, I: ex.fresh("pid", 32))
        on(r"^cyclone::sys_api::thread_get_current_name\(\)$", lambda ex, st, a, I: st.ghost["thread_name"])
        orig = ex.intrinsic

        def intrinsic(st, fr, I, name):
            if name.startswith("llvm.va_start"): st.ghost["va"] = "fresh"
            return orig(st, fr, I, name)
        ex.intrinsic = intrinsic

    def ob(self, st, name, goal, kind="postcondition", line=None): self.ex.oblige(st, name, goal if z3.is_expr(goal) else (T if goal else F), kind, line)

    def c_str(self, ex, st, a, I):
        v = sget(ex, st, a[0])
        for r, x in st.ghost.get("cstr", {}).items():
            if x == v: return Ptr(r, 0)
        p = ctext.new_text(ex, st, "c_str")
        st.ghost["cstr"] = {**st.ghost.get("cstr", {}), p.r: v}
        return p

    def lock(self, st, p, on, I):
        self.ob(st, "the log's lock is taken once and released by its holder", st.ghost["locked"] is not on, "callee precondition", I.line)
        self.ob(st, "it is the log's lock", b64(p.off) == 500, "callee precondition", I.line)
        st.ghost["locked"] = on

    def fopen(self, ex, st, a, I):
        name, mode = text_of(ex, st, a[0], I), ctext.literal(ex, st, a[1])
        ok = ex.fresh("opened", 1)

        def good(s):
            r = ex.new_reg(s, "file", "cells", 8)
            s.ghost["files"] = {**s.ghost["files"], r.id: True}
            rec(s, "open", name, mode, r.id)
            return Ptr(r.id, 0)
        return osm.alts(ex, st, [(ok, good), (z3.Not(ok), lambda s: (rec(s, "open", name, mode, None), Ptr(0, bv(0)))[1])])

    def stream(self, st, p):
        if isinstance(p, Ptr) and p.r in st.ghost["files"]: return p.r
        for k in ("stderr", "stdout"):
            if isinstance(p, Ptr) and p.r == 0 and z3.is_true(z3.simplify(b64(p.off) == st.ghost[k])): return k
        return None

    def out(self, st, p, tok, I):
        s = self.stream(st, p)
        if s is None and isinstance(p, Ptr) and p.r == 0 and not isinstance(p.off, int):      # stdout or stderr, chosen by a condition
            rec(st, "out", p.off, tok)
            return self.ex.fresh("n", 32)
        self.ob(st, "output goes to an open stream", s is not None and (isinstance(s, str) or st.ghost["files"][s]), "callee precondition", I.line)
        rec(st, "out", s, tok)
        return self.ex.fresh("n", 32)

    def fclose(self, ex, st, a, I):
        s = self.stream(st, a[0])
        self.ob(st, "an open file is closed once", s is not None and not isinstance(s, str) and st.ghost["files"].get(s) is True, "callee precondition", I.line)
        st.ghost["files"] = {**st.ghost["files"], s: False}
        rec(st, "fclose", s)
        return bv(0, 32)

    def vsnprintf(self, ex, st, a, I):
        self.ob(st, "an argument list is started before each use", st.ghost.get("va") == "fresh", "callee precondition", I.line)
        st.ghost["va"] = "used"
        f = ex.resolve(st, a[2])
        self.ob(st, "the message is the format", f.r == st.ghost["message"].r and z3.is_true(z3.simplify(b64(f.off) == 0)), "callee precondition", I.line)
        Lm, k = st.ghost["msglen"], b64(a[1])
        if a[0].r != 0:
            d = ctext.room(ex, st, a[0], k, "vsnprintf destination", I.line)
            ctext.at(ex, st, d)
            e = ex.fresh("partial")
            st.assume(z3.ULT(e, k))
            ctext.written(ex, st, d, z3.If(Lm < 0, e, z3.If(z3.ULT(z3.SignExt(32, Lm), k), z3.SignExt(32, Lm), k - 1)), k)
            st.ghost["msgtext"] = {**st.ghost.get("msgtext", {}), d.r: True}
        else: self.ob(st, "a missing destination has size 0", k == 0, "callee precondition", I.line)
        return Lm


def fn(name):
    c = [d for d in M.bydem if d.startswith(name + "(") and M.has(M.bydem[d]) and re.match(r"^[^()]*\((?:[^()]|\([^()]*\))*\)$", d)]
    if len(c) != 1: raise bld.BuildError(f"{name}: {len(c)} definitions")
    return c[0]


def begin(v, name, log=True):
    c = Lg(v, name)
    ex, st = c.ex, State()
    st.ghost.update(str={}, files={}, locked=False, text={}, cstr={})
    if log:
        r = ex.new_reg(st, "thelog", "cells", L.sizeof("cyclone::DiskLogFile"))
        c.log = r.id
        st.ghost["str"] = {(r.id, OFF["file_path"]): (("path",),), (r.id, OFF["file_path_name"]): (("name",),)}
        ex.store_cell(st, r.id, OFF["lock"], 8, Ptr(0, bv(500)))
        c.thr = ex.fresh("threshold", 32)
        st.assume(c.thr >= 0, c.thr <= LEVELS)
        ex.store_cell(st, r.id, OFF["level_threshold"], 4, c.thr)
        c.made = ex.fresh("path_made", 8)
        st.assume(z3.ULE(c.made, 1))
        ex.store_cell(st, r.id, OFF["logpath_created"], 1, c.made)
        c.names = []
        for k in range(LEVELS):
            p = ctext.new_text(ex, st, f"level{k}")
            c.names.append(p.r)
            ex.store_cell(st, r.id, OFF["level_name"] + 8 * k, 8, p)
        ex.on(r"^cyclone::_get_disk_log\(\)$", lambda ex, st, a, I: Ptr(r.id, 0))
        st.ghost["thread_name"] = ctext.new_text(ex, st, "thread_name")
        inner = ex.access_hook

        def hook(ex, st, p, ty, w, line):
            if p.r == c.log and not getattr(c, "nolock", False):
                if not (p.off == OFF["lock"] and w is None): c.ob(st, "the log's state is used under its lock", st.ghost["locked"] is True, "race", line)
            return inner(ex, st, p, ty, w, line)
        ex.access_hook = hook
    v.cover(ex, st)
    return c, ex, st


# ---------------------------------------------------------------------- text helpers
def t_module_name(v):
    c, ex, st = begin(v, "process_get_module_name", False)
    S, k = ex.fresh("room"), ex.fresh("max_size")
    st.assume(z3.UGE(k, 1), z3.ULE(k, S), z3.ULT(S, bv(1 << 40)))
    d = ex.new_reg(st, "module_name", "cells", S)

    def ret(s, _):
        n, z = ctext.get(ex, s, d.id)
        c.ob(s, "the destination holds a text", n is not None)
        if n is None: return
        c.ob(s, "the destination is terminated within the size given", z3.ULT(n, k))
        cp = [t for t in calls(s, "copy") if t[1] == d.id]
        rl = calls(s, "readlink")
        c.ob(s, "the name is copied once, from the program's path", len(cp) == 1 and len(rl) == 1)
        if len(cp) != 1: return
        lit = ctext.literal(ex, s, cp[0][2])
        sr = calls(s, "strrchr")
        if lit is not None:
            c.ob(s, "a fixed name is used only when the path is unknown", lit == "unknown" and (rl[0][2] is None or (len(sr) == 1 and sr[0][2] is None)))
            c.ob(s, "the text is the whole name, or its beginning", n == z3.If(z3.ULT(bv(len(lit)), k), bv(len(lit)), k - 1))
        else:
            q = ex.resolve(s, cp[0][2])
            c.ob(s, "the name is what follows the last separator of the path", z3.And(z3.BoolVal(len(sr) == 1 and rl[0][1] == q.r and sr[0][1].r == q.r and sr[0][2] is not None), b64(q.off) == sr[0][2] + 1) if sr and sr[0][2] is not None else F)
            full = ctext.get(ex, s, q.r)[0] - b64(q.off)
            c.ob(s, "the text is the whole name, or its beginning", n == z3.If(z3.ULT(full, k), full, k - 1))
    ex.run(st, fn("cyclone::sys_api::process_get_module_name"), [Ptr(d.id, 0), k], ret)


def t_time(v):
    c, ex, st = begin(v, "local_time_now", False)
    S, k = ex.fresh("room"), ex.fresh("max_size")
    st.assume(z3.UGE(k, 1), z3.ULE(k, S), z3.ULT(S, bv(1 << 40)))
    d = ex.new_reg(st, "time_dest", "cells", S)
    f = ctext.new_text(ex, st, "format")

    def ret(s, _):
        n, z = ctext.get(ex, s, d.id)
        c.ob(s, "the destination is terminated within the size given", z3.ULT(n, k) if n is not None else F)
        lt, sf, tm = calls(s, "localtime"), calls(s, "strftime"), calls(s, "time")
        c.ob(s, "the current local time is formatted as asked", z3.And(z3.BoolVal(len(lt) == len(sf) == len(tm) == 1 and sf[0][1] == d.id and sf[0][2].r == f.r and sf[0][3].r == lt[0][2].r), lt[0][1] == tm[0][1]) if len(lt) == len(sf) == len(tm) == 1 else F)
    ex.run(st, fn("cyclone::sys_api::local_time_now"), [Ptr(d.id, 0), k, f], ret)


UNITS = {"": 0, "KB": 10, "MB": 20, "GB": 30}


def t_size(of):
    def f(v):
        c, ex, st = begin(v, f"size_to_string({of})", False)
        rm = z3.RNE()
        if of == "float":
            a = z3.FP("size", z3.Float32())
            st.assume(z3.Not(z3.fpIsNaN(a)))
            val = a
        else:
            a = ex.fresh("size")
            val = z3.fpUnsignedToFP(rm, a, z3.Float32())
        out = ex.new_reg(st, "result", "cells", 32)

        def ret(s, _):
            r = s.ghost["str"].get((out.id, 0))
            pr = calls(s, "print")
            ok = r is not None and len(r) == 1 and isinstance(r[0], tuple) and r[0][0] == "chars" and len(pr) == 1 and r[0][1] == pr[0][1]
            c.ob(s, "the result is the text that was formatted", ok)
            if not ok: return
            tok, k = pr[0][2], pr[0][4]
            conv = [t for t in tok if not isinstance(t, str)]
            lit = "".join(t for t in tok if isinstance(t, str))
            good = len(conv) == 1 and conv[0][0] == "arg" and conv[0][1][3] == "f" and conv[0][1][2] == "2" and not isinstance(tok[0], str) and lit.strip() in UNITS and lit.startswith(" ")
            c.ob(s, "a number with two decimals and a unit is printed", good)
            if not good: return
            sh = UNITS[lit.strip()]
            x = conv[0][2]
            c.ob(s, "the number printed times its unit is the size", z3.Or(z3.fpEQ(x, z3.fpDiv(rm, z3.fpFPToFP(rm, val, z3.Float64()), z3.FPVal(float(1 << sh), z3.Float64())))))
            lo, hi = z3.FPVal(float(1 << sh), z3.Float32()), z3.FPVal(float(1 << (sh + 10)), z3.Float32())
            inside = z3.And(z3.Or(z3.fpGEQ(val, lo), z3.BoolVal(sh == 0)), z3.Or(z3.fpLT(val, hi), z3.BoolVal(sh == 30)))
            c.ob(s, "the unit is the largest that is not above the size", inside)
            c.ob(s, "the buffer is large enough for every size (1+39 digits, point, two decimals, unit)", z3.UGT(k, bv(1 + 39 + 3 + len(lit))))
        ex.run(st, next(d for d in M.bydem if re.match(r"^cyclone::string_util::size_to_string(\[abi:cxx11\])?\(" + re.escape(of) + r"\)$", d)), [Ptr(out.id, 0), a], ret)
    return f


# ---------------------------------------------------------------------- the logger
def t_disk_log(v):
    c, ex, st = begin(v, "disk_log")
    lev, msg = ex.fresh("level", 32), ctext.new_text(ex, st, "message")
    st.assume(lev >= 0, lev < LEVELS)
    st.ghost["message"] = msg
    st.ghost["msglen"] = ex.fresh("message_length", 32)
    st.assume(st.ghost["msglen"] < bv((1 << 31) - 1, 32))
    Lm = st.ghost["msglen"]
    for k, o in (("stderr", 600), ("stdout", 601)):
        st.ghost[k] = bv(o)
        ex.store_cell(st, ex.global_reg(st, k), 0, 8, Ptr(0, bv(o)))

    def time_now(ex, st, a, I):
        d = ctext.room(ex, st, a[0], a[1], "local_time_now destination", I.line)
        c.ob(st, "local_time_now is given room", z3.UGE(a[1], 1), "callee precondition", I.line)
        n = ex.fresh("time_len")
        st.assume(z3.ULT(n, a[1]))
        ctext.written(ex, st, d, n, a[1])
        st.ghost["timetext"] = d.r
    ex.on(r"^cyclone::sys_api::local_time_now\(", time_now)

    def ret(s, _):
        c.ob(s, "the lock is released", s.ghost["locked"] is False, "resource")
        op, out, cl, mk, ac = calls(s, "open"), calls(s, "out"), calls(s, "fclose"), calls(s, "mkdir"), calls(s, "access")
        c.ob(s, "every file that was opened is closed", not any(s.ghost["files"].values()), "resource")
        c.ob(s, "no storage is left allocated", not [r for r in s.mem.values() if r.name.startswith(("malloc", "heap", "new")) and r.alive and r.id not in s.ghost["files"]], "resource")
        c.ob(s, "only the log's own file and directory are touched", all(t[1] == (("name",),) and t[2] in ("a", "w") for t in op) and all(t[1] == (("path",),) for t in mk + ac))
        c.ob(s, "a file that exists is appended to, never truncated", all(t[2] == "a" or (i > 0 and op[i - 1][3] is None and op[i - 1][2] == "a") for i, t in enumerate(op)))
        opened = [t[3] for t in op if t[3] is not None]
        if not out:
            c.ob(s, "a message is left out only below the threshold or when its file or directory cannot be made", z3.Or(lev < c.thr, z3.Or([t[2] != 0 for t in mk]) if mk else F, z3.BoolVal(len(op) == 2 and not opened)))
            c.ob(s, "a message below the threshold touches nothing", z3.Implies(lev < c.thr, z3.BoolVal(not op and not mk)))
            return
        c.ob(s, "a message is written only if its level reaches the threshold", lev >= c.thr)
        st_ = {}
        for t in out:
            k = t[1]
            if z3.is_expr(k): k = "std"
            st_.setdefault(k, []).append(t)
        c.ob(s, "the message goes to the log file", len(opened) == 1 and opened[0] in st_)
        if len(opened) != 1: return
        std = [t for k, ts in st_.items() if k != opened[0] for t in ts]
        c.ob(s, "the message is printed once more", len({str(t[1]) for t in std}) == 1)
        if std:
            w = std[0][1]
            w = bv(600) if w == "stderr" else bv(601) if w == "stdout" else w
            c.ob(s, "errors go to stderr, other messages to stdout", b64(w) == z3.If(lev >= 4, bv(600), bv(601)))
        for name, ts in (("file", st_.get(opened[0], [])), ("printed", std)):
            tok = [x for t in ts for x in t[2]]
            want = [("time",), " ", ("level",), " [", ("thread",), "] ", ("msg",), "\n"]
            m = []
            for x in tok:
                if isinstance(x, str) and m and isinstance(m[-1], str): m[-1] += x
                else: m.append(x)
            ok = len(m) == len(want) and all(isinstance(x, str) == isinstance(y, str) and (not isinstance(x, str) or x == y) for x, y in zip(m, want))
            c.ob(s, f"the {name} line is time, level, thread and message", ok)
            if not ok: continue
            tx = [x for x in m if not isinstance(x, str)]
            rid = [ex.resolve(s, x[1]) for x in tx]
            c.ob(s, f"the {name} line has the current time first", rid[0].r == s.ghost.get("timetext"))
            k = next((i for i in range(LEVELS) if c.names[i] == rid[1].r), None)
            c.ob(s, f"the {name} line names the level", lev == k if k is not None else F)
            c.ob(s, f"the {name} line names the thread", rid[2].r == s.ghost["thread_name"].r)
            c.ob(s, f"the {name} line has the message, whole for every length", z3.And(z3.BoolVal(rid[3].r in s.ghost.get("msgtext", {})), z3.Implies(Lm >= 0, tx[3][2] == z3.SignExt(32, Lm))))
    d = next(x for x in M.bydem if x.startswith("cyclone::disk_log(") and M.has(M.bydem[x]))
    orig = ex.load

    def load(st, p, ty, line=0, name=None):
        q = ex.resolve(st, p)
        if q.r == c.log and not isinstance(q.off, int) and ty.kind == "ptr":      # level_name[level]
            for k in range(LEVELS):
                if ex.valid(st, b64(q.off) == OFF["level_name"] + 8 * k): return Ptr(c.names[k], 0)
            al = []
            raise Unsupported("level name of an undecided level")
        return orig(st, p, ty, line, name)
    ex.load = load
    for k in range(LEVELS):
        s2 = st.clone()
        s2.assume(lev == k)
        ex.run(s2, d, [bv(k, 32), msg], ret)


def t_set_name(v):
    c, ex, st = begin(v, "set_log_filename")
    a, b = ctext.new_text(ex, st, "pathName"), ctext.new_text(ex, st, "fileName")
    na, nb = ctext.get(ex, st, a.r)[0], ctext.get(ex, st, b.r)[0]

    def ret(s, r):
        r = r if z3.is_bool(r) else r == 1
        c.ob(s, "the lock is released", s.ghost["locked"] is False, "resource")
        c.ob(s, "a path and a name are needed", r == z3.And(na != 0, nb != 0))
        p, n = s.ghost["str"].get((c.log, OFF["file_path"])), s.ghost["str"].get((c.log, OFF["file_path_name"]))
        A, B = ("chars", a.r, bv(0).sexpr()), ("chars", b.r, bv(0).sexpr())
        if ex.valid(s, z3.Not(r)):
            c.ob(s, "a rejected call changes nothing", p == (("path",),) and n == (("name",),))
            return
        c.ob(s, "the log's directory is the path", p == (A,))
        last = [t[2] for t in calls(s, "char") if t[1].r == a.r and ex.valid(s, b64(t[1].off) == na - 1)]
        c.ob(s, "the path's last character decides about the separator", len(last) >= 1)
        if last: c.ob(s, "the log file is path, separator if missing, name", z3.Or(z3.And(z3.BoolVal(n == (A, B)), z3.Or(last[0] == ord("/"), last[0] == ord("\\"))), z3.And(z3.BoolVal(n == (A, "/", B)), last[0] != ord("/"), last[0] != ord("\\"))))
        c.ob(s, "the new directory is looked for again", ex.load_cell(s, c.log, OFF["logpath_created"], 1, _IntTy(8)) == 0)
    for x, y in ((a, b), (Ptr(0, bv(0)), b), (a, Ptr(0, bv(0)))):
        if x.r and y.r: ex.run(st.clone(), fn("cyclone::set_log_filename"), [x, y], ret)
        else: ex.run(st.clone(), fn("cyclone::set_log_filename"), [x, y], lambda s, r: c.ob(s, "a missing path or name is rejected and changes nothing", z3.And(z3.Not(r) if z3.is_bool(r) else r == 0, z3.BoolVal(s.ghost["str"] == st.ghost["str"]))))


def t_misc(v):
    c, ex, st = begin(v, "set_log_threshold and get_log_filename")
    l = ex.fresh("level", 32)
    st.assume(l >= 0, l <= LEVELS)

    def ret(s, _):
        c.ob(s, "the lock is released", s.ghost["locked"] is False, "resource")
        c.ob(s, "the threshold is set", ex.load_cell(s, c.log, OFF["level_threshold"], 4, _IntTy(32)) == l)
    ex.run(st.clone(), fn("cyclone::set_log_threshold"), [l], ret)
    c.nolock = True
    ex.run(st, fn("cyclone::get_log_filename"), [], lambda s, r: c.ob(s, "the name returned is the log file's", s.ghost["cstr"].get(r.r) == (("name",),)))


def t_ctor(v):
    c, ex, st = begin(v, "DiskLogFile constructor", False)
    r = ex.new_reg(st, "newlog", "cells", L.sizeof("cyclone::DiskLogFile"))

    def name(ex, st, a, I):
        d = ctext.room(ex, st, a[0], a[1], "process_get_module_name destination", I.line)
        c.ob(st, "process_get_module_name is given room", z3.UGE(a[1], 1), "callee precondition", I.line)
        n = ex.fresh("text_len")
        st.assume(z3.ULT(n, a[1]))
        ctext.written(ex, st, d, n, a[1])
    ex.on(r"^cyclone::sys_api::(local_time_now|process_get_module_name)\(", name)

    def ret(s, _):
        p, n = s.ghost["str"].get((r.id, OFF["file_path"])), s.ghost["str"].get((r.id, OFF["file_path_name"]))
        c.ob(s, "the default directory is a path", p is not None and len(p) == 1 and isinstance(p[0], str) and p[0].endswith("/"))
        c.ob(s, "the default log file lies in the default directory", n is not None and len(n) == 2 and n[0] == (p or (None,))[0] and isinstance(n[1], tuple) and n[1][0] == "chars")
        c.ob(s, "every level is logged by default", ex.load_cell(s, r.id, OFF["level_threshold"], 4, _IntTy(32)) <= 1)
        c.ob(s, "the directory is looked for", ex.load_cell(s, r.id, OFF["logpath_created"], 1, _IntTy(8)) == 0)
        x = ex.load_cell(s, r.id, OFF["lock"], 8, _PtrTy())
        c.ob(s, "the log has its lock", isinstance(x, Ptr) and z3.is_true(z3.simplify(b64(x.off) == 500)))
        nm = [ctext.literal(ex, s, ex.load_cell(s, r.id, OFF["level_name"] + 8 * k, 8, _PtrTy())) for k in range(LEVELS)]
        c.ob(s, "every level has its own name", all(nm) and len(set(nm)) == LEVELS)
    ex.run(st, fn("cyclone::DiskLogFile::DiskLogFile"), [Ptr(r.id, 0)], ret)


def tasks(tier):
    return [("process_get_module_name", t_module_name), ("local_time_now", t_time), ("size_to_string(float)", t_size("float")), ("size_to_string(size_t)", t_size("unsigned long")),
            ("disk_log", t_disk_log), ("set_log_filename", t_set_name), ("set_log_threshold, get_log_filename", t_misc), ("DiskLogFile constructor", t_ctor)]


def replay(failed, errors, seed, tier):
    H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "text_harness.cpp")
    b = bld.native("text", H, [], flags=nat.ASAN)
    return nat.confirm(b, [], [], seed, 15 if tier == "quick" else 300)
