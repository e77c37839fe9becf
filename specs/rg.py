"""Rely-guarantee machinery: a shared object whose fields other threads change between any two steps of this thread"""
import z3
from dv.exec import *
from dv.loops import Restart

# LLVM atomic orderings
MONO, ACQ, REL, ACQREL, SEQ = 2, 4, 5, 6, 7


class Shared:
    """access to the region `rid` goes through read(ex, st, off, ty, line, rmw)/write(ex, st, off, v, size, line, rmw); before each atomic step the
    environment moves (env(ex, st))"""

    def __init__(self, ex, rids, env, read, write):
        self.rids, self.env, self.read, self.write = set(rids), env, read, write
        ex.access_hook = self.hook
        ex.atomic_hook_pre = self.pre

    def pre(self, st, p, I):
        if isinstance(p, Ptr) and p.r in self.rids: self.env(self.ex_, st)

    def hook(self, ex, st, p, ty, w, line):
        self.ex_ = ex
        if p.r not in self.rids: return None
        if ex.rmw is None: self.env(ex, st)
        if w is None: return self.read(ex, st, p, ty, line)
        self.write(ex, st, p, w[0], w[1], line)
        return True


def attach(ex, sh):
    sh.ex_ = ex


class StatusLoop:
    """a loop of a thread among others: whatever happened in earlier iterations, the ghost status `keys` is as on entry; local memory written by the
    body is havocked (found by re-running), environment moves are whatever the environment may do"""

    def __init__(self, keys, reset, env):
        self.keys, self.reset, self.env = keys, reset, env
        self.hav = {}

    def enter(self, ex, st, hdr, phis):
        k = (st.frames[-1].fn.name, hdr.idx)
        self.env(ex, st)
        self.reset(ex, st)
        for I, v in phis.items():
            if isinstance(v, Ptr) and v.r: raise Unsupported("loop-carried pointer in a concurrent loop")
            phis[I] = ex.fresh_of(I.ty, I.name or "v")
        for r in list(st.mem.values()):
            if r.name in self.hav.get(k, ()):
                for o, (v, n) in list(r.cells.items()):
                    if isinstance(v, (Ptr, FnPtr)): raise Unsupported("pointer written in a concurrent loop")
                    ex.store_cell(st, r.id, o, n, ex.fresh("hav", 8 * n))
        return (dict(st.mem), {g: st.ghost[g] for g in self.keys})

    def back(self, ex, st, hdr, phis, saved):
        from dv.loops import changed_regions
        snap, status = saved
        k = (st.frames[-1].fn.name, hdr.idx)
        line = hdr.insts[-1].line
        h = self.hav.setdefault(k, set())
        new = {st.mem[r].name for r in changed_regions(st, snap) if r in st.mem} - h
        if new:
            h |= new
            raise Restart()
        for g, v in status.items():
            n = st.ghost[g]
            same = (n is v or n == v) if not (z3.is_expr(n) or z3.is_expr(v)) else (z3.is_expr(n) and z3.is_expr(v) and n.eq(v))
            if not same and z3.is_expr(n) and z3.is_expr(v): ex.oblige(st, f"a retry starts with '{g}' unchanged", n == v, "loop invariant", line)
            else: ex.oblige(st, f"a retry starts with '{g}' unchanged", T if same else F, "loop invariant", line)


def solve(make, rounds=6):
    """make() -> (ex, run)"""
    for _ in range(rounds):
        ex, run = make()
        n = len(ex.obls)
        try:
            run()
            return
        except Restart:
            del ex.obls[n:]
    raise Unsupported("concurrent loop does not stabilise")
