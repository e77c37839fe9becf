"""std::function, std::bind and friends through their contracts, by demangled name.

A std::function object is opaque: its region offset maps (ghost "fn") to a target value, e.g. ("bind", pmf, args) or an arbitrary callable; constructing,
copying, assigning, testing and calling it are intercepted."""
import z3
from dv.exec import *
from dv.exec import _IntTy, _PtrTy

TRUST = ["std::function/std::bind: a function object holds exactly the target it was built or assigned from, tests true iff it has one, and a call invokes it with the given arguments"]


def key(p): return (p.r, p.off if isinstance(p.off, int) else str(p.off))


def get(st, p): return st.ghost.get("fn", {}).get(key(p))


def put(st, p, t): st.ghost["fn"] = {**st.ghost.get("fn", {}), key(p): t}


class Target:
    """an arbitrary callable named `name`; `present` is whether the object is non-empty"""
    def __init__(self, name, present=None): self.name, self.present = name, present
    def __repr__(self): return f"<{self.name}>"


EMPTY = Target("empty", F)


def pmf(ex, st, p):
    """the member function a pointer-to-member object at p denotes"""
    v = ex.load(st, p, _PtrTy()) if isinstance(p, Ptr) else p
    return v.name if isinstance(v, FnPtr) else v


def install(ex, on_call=None):
    def ctor_null(ex, st, a, I): put(st, a[0], EMPTY)
    ex.on(r"^std::function<.*>::function\((decltype\(nullptr\)|std::nullptr_t)\)$", ctor_null)
    ex.on(r"^std::function<[^(]*\(.*\)>::function\(\)$", ctor_null)

    def copy(ex, st, a, I):
        t = get(st, a[1])
        if t is None:
            t = Target(f"fn{a[1].r}+{a[1].off}", ex.fresh("present", 1))
            put(st, a[1], t)
        put(st, a[0], t)
        return a[0]
    ex.on(r"^std::function<.*>::function\(std::function<.*> (const&|&&)\)$", lambda ex, st, a, I: (copy(ex, st, a, I), None)[1])
    ex.on(r"^std::function<.*>::operator=\(std::function<.*> (const&|&&)\)$", copy)
    ex.on(r"^std::function<.*>::operator=\((decltype\(nullptr\)|std::nullptr_t)\)$", lambda ex, st, a, I: (put(st, a[0], EMPTY), a[0])[1])
    ex.on(r"^std::function<.*>::swap\(", lambda ex, st, a, I: swap(st, a[0], a[1]))

    def swap(st, p, q):
        t, u = get(st, p), get(st, q)
        if t is None or u is None: raise Unsupported("swap of unknown function objects")
        put(st, p, u); put(st, q, t)

    def from_any(ex, st, a, I):
        t = get(st, a[1])
        put(st, a[0], t if t is not None else Target(f"callable{a[1].r}", T))
    ex.on(r"^std::function<.*>::function<std::_Bind.*", from_any)
    ex.on(r"^std::function<.*>::~function\(\)$", lambda ex, st, a, I: None)

    def test(ex, st, a, I):
        t = get(st, a[0])
        if t is None:
            t = Target(f"fn{a[0].r}+{a[0].off}", ex.fresh("present", 1))
            put(st, a[0], t)
        return t.present if t.present is not None else T
    ex.on(r"^std::function<.*>::operator bool\(\) const$", test)

    def call(ex, st, a, I):
        t = get(st, a[0])
        if t is None:
            t = Target(f"fn{a[0].r}+{a[0].off}", ex.fresh("present", 1))
            put(st, a[0], t)
        p = t.present if t.present is not None else T
        ex.oblige(st, "a function object is called only if it holds a target", p, "callee precondition", I.line)
        return on_call(ex, st, t, a[0], a[1:], I) if on_call else None
    ex.on(r"^std::function<.*>::operator\(\)\(.*\) const$", call)
