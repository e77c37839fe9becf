"""std::shared_ptr through its contract: an object that holds a pointer (its first word) and owns one reference to the pointee.

install(ex, ref): ref(ex, st, ptr, delta, line) is told of every reference taken (+1) and dropped (-1), after the object was updated."""
import z3
from dv.exec import *
from dv.exec import _PtrTy

TRUST = ["std::shared_ptr/std::make_shared/enable_shared_from_this: reference counting; the pointee is destroyed when the last reference is dropped"]
NUL = Ptr(0, bv(0))


def get(ex, st, p, line=0):
    v = ex.load(st, p, _PtrTy(), line)
    return v if isinstance(v, Ptr) else Ptr(0, v)


def null(ex, st, p): return is_null(get(ex, st, p))


def install(ex, ref):
    def put(st, p, v, line): ex.store(st, p, v, 8, line)

    def init_null(ex, st, a, I): put(st, a[0], NUL, I.line)

    def copy(ex, st, a, I):
        v = get(ex, st, a[1], I.line)
        put(st, a[0], v, I.line)
        if not is_null(v): ref(ex, st, v, 1, I.line)

    def move(ex, st, a, I):
        v = get(ex, st, a[1], I.line)
        put(st, a[0], v, I.line)
        put(st, a[1], NUL, I.line)

    def asg_copy(ex, st, a, I):
        v, o = get(ex, st, a[1], I.line), get(ex, st, a[0], I.line)
        if not is_null(v): ref(ex, st, v, 1, I.line)
        put(st, a[0], v, I.line)
        if not is_null(o): ref(ex, st, o, -1, I.line)
        return a[0]

    def asg_move(ex, st, a, I):
        v, o = get(ex, st, a[1], I.line), get(ex, st, a[0], I.line)
        if a[0].r == a[1].r and a[0].off is a[1].off: return a[0]
        put(st, a[1], NUL, I.line)
        put(st, a[0], v, I.line)
        if not is_null(o): ref(ex, st, o, -1, I.line)
        return a[0]

    def drop(ex, st, a, I):
        o = get(ex, st, a[0], I.line)
        if not is_null(o):
            put(st, a[0], NUL, I.line)
            ref(ex, st, o, -1, I.line)

    def swap(ex, st, a, I):
        v, o = get(ex, st, a[1], I.line), get(ex, st, a[0], I.line)
        put(st, a[0], v, I.line)
        put(st, a[1], o, I.line)
    S, X = r"^std::(?:shared_ptr|__shared_ptr|__shared_ptr_access)<.*>::", r"(?:shared_ptr|__shared_ptr)"
    ex.on(S + X + r"\((decltype\(nullptr\)|std::nullptr_t)?\)$", init_null)
    ex.on(S + X + r"\(std::(__)?shared_ptr<.*> const&\)$", copy)
    ex.on(S + X + r"\(std::(__)?shared_ptr<.*>&&\)$", move)
    ex.on(S + r"~" + X + r"\(\)$", drop)
    ex.on(S + r"operator=\(std::(__)?shared_ptr<.*> const&\)$", asg_copy)
    ex.on(S + r"operator=\(std::(__)?shared_ptr<.*>&&\)$", asg_move)
    ex.on(S + r"reset\(\)$", drop)
    ex.on(S + r"swap\(", swap)
    ex.on(S + r"(get|operator->|operator\*)\(\) const$", lambda ex, st, a, I: get(ex, st, a[0], I.line))
    ex.on(S + r"operator bool\(\) const$", lambda ex, st, a, I: F if null(ex, st, a[0]) else T)
    ex.on(r"^bool std::operator==<.*>\(std::shared_ptr<.*> const&, (decltype\(nullptr\)|std::nullptr_t)\)$", lambda ex, st, a, I: T if null(ex, st, a[0]) else F)
    ex.on(r"^bool std::operator!=<.*>\(std::shared_ptr<.*> const&, (decltype\(nullptr\)|std::nullptr_t)\)$", lambda ex, st, a, I: F if null(ex, st, a[0]) else T)
