"""Reusable loop contracts."""
import z3, os
import z3.z3util
from .exec import *


def changed_regions(st, snap):
    """ids of the regions that existed at the loop head and were written since"""
    out = []
    for rid, old in snap.items():
        new = st.mem.get(rid)
        if new is old or new is None: continue
        if new.alive != old.alive or new.content is not old.content: out.append(rid); continue
        if old.kind == "elems" and any(new.fields[k][2] is not old.fields[k][2] for k in old.fields): out.append(rid); continue
        for o, (v, n) in old.cells.items():
            c = new.cells.get(o)
            if c is None or c[1] != n: out.append(rid); break
            a, b = c[0], v
            if a is b: continue
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r and z3.is_true(z3.simplify(b64(a.off) == b64(b.off))) and a.idx is b.idx: continue
            elif z3.is_expr(a) and z3.is_expr(b) and a.eq(b): continue
            out.append(rid); break
    return out


class PureLoop:
    """a loop that changes no object, only local values: inv(list of phi values in block order) -> bool term;
    measure(phis) -> 64-bit term that must strictly decrease (unsigned)"""

    def __init__(self, inv, measure=None, name="loop"):
        self.inv, self.measure, self.name = inv, measure, name

    def enter(self, ex, st, hdr, phis):
        line = hdr.insts[-1].line
        ex.oblige(st, f"{self.name}: invariant holds on entry", self.inv(list(phis.values())), "loop invariant", line)
        for I in phis: phis[I] = ex.fresh_of(I.ty, f"{self.name}.{I.name or 'v'}")
        vals = list(phis.values())
        st.assume(self.inv(vals))
        return (dict(st.mem), vals)

    def back(self, ex, st, hdr, phis, saved):
        snap, vals = saved
        line = hdr.insts[-1].line
        if changed_regions(st, snap): raise Unsupported(f"{self.name}: the loop body writes memory")
        ex.oblige(st, f"{self.name}: invariant is preserved", self.inv(list(phis.values())), "loop invariant", line)
        if self.measure:
            ex.oblige(st, f"{self.name}: the variant decreases", z3.ULT(self.measure(list(phis.values())), self.measure(vals)), "termination", line)


class Restart(Exception):
    pass


class G:
    """a ghost variable treated like a loop-carried local"""
    op = "ghost"

    def __init__(self, name): self.name = name


class Scan:
    """a universally quantified candidate: for all k pred(phis, k); assumed through instances at the arguments of the function `fname`"""
    def __init__(self, fname, pred): self.fname, self.pred = fname, pred
    def __call__(self, e): return self.pred(e, z3.FreshConst(z3.BitVecSort(64), "scan_k"))

    def assume(self, st, e):
        e = dict(e)
        st.foralls.append((self.fname, lambda k: self.pred(e, k)))


class Houdini:
    """Invariant inference by elimination.  For every loop header of the functions matching `rx`, gen(ex, st, hdr, phis)
    yields named candidate invariants [(name, term function phis -> bool)].  Candidates that fail on entry or are not
    preserved are dropped and the whole function is run again, until the surviving set is inductive; the last pass then
    discharges every surviving candidate and every other obligation for real (ex.infer off)."""

    def __init__(self, rx, gen, after=None, mem=None, max_rounds=12, ghosts=()):
        self.ghosts = [G(g) for g in ghosts]
        self.rx, self.gen, self.after, self.mem, self.max_rounds = rx, gen, after, mem, max_rounds
        self.dropped = {}
        self.changed = False
        self.terminates = True

    def attach(self, ex):
        ex.loop_specs.append((self.rx, None, self))

    def key(self, ex, st, hdr): return (st.frames[-1].fn.name, hdr.idx)

    def solve(self, make):
        """make() -> (ex, run): executes the function from scratch; ex.infer decides inference or proof"""
        for _ in range(self.max_rounds):
            self.changed = False
            ex, run = make()
            ex.infer = True
            n = len(ex.obls)
            try: run()
            except Restart: pass
            del ex.obls[n:]
            if not self.changed: break
        ex, run = make()
        ex.infer = False
        run()

    def cands(self, ex, st, hdr, phis):
        k = self.key(ex, st, hdr)
        d = self.dropped.setdefault(k, set())
        self.defs = {}
        out = []
        for c in self.gen(ex, st, hdr, phis):
            if c[0] in d: continue
            out.append((c[0], c[1]))
            if len(c) > 2: self.defs[c[0]] = c[2]         # (phi, fn(env)): the candidate defines that phi
        return d, out

    def test(self, ex, st, hdr, phis, cs, d, what):
        line = hdr.insts[-1].line
        if ex.infer:
            terms = [(n, z3.simplify(f(phis))) for n, f in cs]
            def drop(n, why=""):
                if os.environ.get("DV_DROP"): print("DROP", line, what, n, why)
                d.add(n)
                self.changed = True
            left = []
            for n, t in terms:
                if z3.is_false(t): drop(n)
                elif not z3.is_true(t): left.append((n, t))
            tmo = 8000
            while left:
                r, m = self.query(ex, st, z3.Not(z3.And([t for n, t in left])), tmo)
                if r == z3.unsat: return
                if r == z3.sat:
                    bad = []
                    for n, t in left:
                        try:
                            if z3.is_false(z3.simplify(m.eval(t, model_completion=True))): bad.append(n)
                        except Exception: pass
                    if bad:
                        if os.environ.get("DV_DROP") == "3": print(bad, [(n, t) for n, t in left if n in bad], [str(x) for x in st.pc], m)
                        for n in bad: drop(n)
                        left = [(n, t) for n, t in left if n not in bad]
                        continue
                # one by one
                keep = []
                for n, t in left:
                    r, m = self.query(ex, st, z3.Not(t), 3000)
                    if r != z3.unsat: drop(n, f"single {r}")
                return
        else:
            for n, f in cs: ex.oblige(st, f"loop at line {line}: '{n}' {what}", f(phis), "loop invariant", line)

    def query(self, ex, st, goal, timeout):
        from . import lia
        fs = list(st.pc) + [goal]
        if st.foralls: fs += ex.instantiate(st, fs)
        if ex.bv_first:
            s = z3.Solver(); s.set("timeout", ex.bv_first); s.add(*fs)
            r = s.check()
            if r != z3.unknown: return r, s.model() if r == z3.sat else None
        try:
            r = lia.solve(fs, timeout)
            if r[0] != z3.unknown: return r
        except lia.NotLinear: pass
        s = z3.Solver(); s.set("timeout", timeout); s.add(*fs)
        r = s.check()
        return r, s.model() if r == z3.sat else None

    def env(self, st, phis):
        e = dict(phis)
        for g in self.ghosts: e[g] = st.ghost[g.name]
        return e

    def enter(self, ex, st, hdr, phis0):
        phis = self.env(st, phis0)
        d, cs = self.cands(ex, st, hdr, phis)
        if not ex.infer and os.environ.get("DV_INV"): print("INV line", hdr.insts[-1].line, "\n   ".join([""] + [n for n, f in cs]))
        self.test(ex, st, hdr, phis, cs, d, "holds on entry")
        cs = [(n, f) for n, f in cs if n not in d]
        snap0 = dict(st.mem)
        entry = dict(phis)
        for I in phis:
            v = phis[I]
            if isinstance(I, G):
                phis[I] = st.ghost[I.name] = z3.FreshConst(v.sort(), I.name)
            elif isinstance(v, Ptr) and v.r: phis[I] = Ptr(v.r, ex.fresh(f"off.{I.name}"), ex.fresh(f"idx.{I.name}") if v.idx is not None else None)
            else: phis[I] = ex.fresh_of(I.ty, f"lv.{I.name}")
        if self.mem: self.mem(ex, st, hdr, phis)
        for n, f in cs:
            if isinstance(f, Scan): f.assume(st, phis)
            else: st.assume(f(phis))
        if self.after: self.after(ex, st, hdr, phis, {n for n, f in cs})
        for I in phis0: phis0[I] = phis[I]
        return (dict(st.mem), dict(phis), cs)

    def back(self, ex, st, hdr, phis, saved):
        snap, head, cs = saved
        phis = self.env(st, phis)
        if not self.mem and changed_regions(st, snap): raise Unsupported("the loop body writes memory")
        for I, v in phis.items():
            if isinstance(v, Ptr) and isinstance(head[I], Ptr) and v.r != head[I].r: raise Unsupported("loop pointer changes object")
        k = self.key(ex, st, hdr)
        d = self.dropped.setdefault(k, set())
        self.test(ex, st, hdr, phis, [(n, f) for n, f in cs if n not in d], d, "is preserved")
        self.variant(ex, st, hdr, phis, head, k)

    def variant(self, ex, st, hdr, phis, head, k):
        # termination: some local moves strictly in one direction at every back edge (no wrap-around, so it can only do so finitely often)
        names = [(str(I.name), dr, I) for I in phis for dr in ("down", "up") if not isinstance(I, G) and (isinstance(phis[I], Ptr) and phis[I].idx is None) or z3.is_bv(phis[I])]
        dv = self.dropped.setdefault((k, "variant"), set())

        def term(I, dr):
            a, b = (phis[I], head[I]) if not isinstance(phis[I], Ptr) else (b64(phis[I].off), b64(head[I].off))
            return z3.ULT(a, b) if dr == "down" else z3.ULT(b, a)
        line = hdr.insts[-1].line
        alive = [(n, dr, I) for n, dr, I in names if (n, dr) not in dv]
        if ex.infer:
            for n, dr, I in alive:
                r, m = self.query(ex, st, z3.Not(term(I, dr)), 3000)
                if r != z3.unsat:
                    dv.add((n, dr))
                    self.changed = True
        elif self.terminates:
            ex.oblige(st, f"loop at line {line} terminates: a local moves strictly in one direction", term(alive[0][2], alive[0][1]) if alive else F, "termination", line)


class Progress(Houdini):
    """A loop that transforms memory as a function of a progress measure P.

    measures(ex, st, hdr, phis) -> [(name, g(phis) -> term)]: possible definitions of P from the loop's locals
    forms: [form]; a form has .name, .regions(st) -> ids it covers, .havoc(ex, st, P) sets those regions to the state the
    form describes at progress P, .check(ex, st, P) -> [(name, goal)] says that the current state is the form's at P.
    The (measure, form) pair of each loop is inferred by elimination, like the scalar candidates (env key 'P')."""

    def __init__(self, rx, gen, measures, forms, after=None, max_rounds=40, ghosts=()):
        Houdini.__init__(self, rx, gen, after, None, max_rounds, ghosts)
        self.measures, self.forms = measures, forms

    def combos(self, ex, st, hdr, phis):
        k = self.key(ex, st, hdr)
        d = self.dropped.setdefault((k, "combo"), set())
        for fm in self.forms:
            for n, g in self.measures(ex, st, hdr, phis):
                if (n, fm.name) not in d: return (n, fm.name), g, fm, d
        raise Unsupported(f"no memory invariant fits the loop at line {hdr.insts[-1].line}")

    def drop_combo(self, d, combo, hdr):
        """what was learnt about this and later loops under the wrong form is forgotten"""
        d.add(combo)
        self.changed = True
        for k in list(self.dropped):
            base = k[0] if isinstance(k[0], tuple) else k
            if base[1] > hdr.idx or (base[1] == hdr.idx and not isinstance(k[0], tuple)): del self.dropped[k]
        raise Restart()

    def holds(self, ex, st, items, combo, d, what, line, hdr):
        for n, t in items:
            if ex.infer:
                t = z3.simplify(t)
                if z3.is_true(t): continue
                r, m = self.query(ex, st, z3.Not(t), 8000)
                if r != z3.unsat:
                    if os.environ.get("DV_DROP"): print("DROP combo", line, combo, what, n, r, t if os.environ.get("DV_DROP") == "2" else "")
                    self.drop_combo(d, combo, hdr)
                    raise PathEnd()
            else: ex.oblige(st, f"loop at line {line}: {n} {what}", t, "loop invariant", line)

    def enter(self, ex, st, hdr, phis0):
        line = hdr.insts[-1].line
        combo, g, fm, d = self.combos(ex, st, hdr, phis0)
        if not ex.infer and os.environ.get("DV_INV"): print("FORM line", line, combo)
        phis = self.env(st, phis0)
        self.holds(ex, st, fm.check(ex, st, g(phis)), combo, d, "holds on entry", line, hdr)
        phis["P"] = g(phis)
        dd, cs = self.cands(ex, st, hdr, phis)
        if not ex.infer and os.environ.get("DV_INV"): print("INV line", line, "\n   ".join([""] + [n for n, f in cs]))
        self.test(ex, st, hdr, phis, cs, dd, "holds on entry")
        cs = [(n, f) for n, f in cs if n not in dd]
        for I in phis0:
            v = phis0[I]
            if isinstance(v, Ptr) and v.r: phis[I] = Ptr(v.r, ex.fresh(f"off.{I.name}"), ex.fresh(f"idx.{I.name}") if v.idx is not None else None)
            else: phis[I] = ex.fresh_of(I.ty, f"lv.{I.name}")
        for gh in self.ghosts: phis[gh] = st.ghost[gh.name] = z3.FreshConst(st.ghost[gh.name].sort(), gh.name)
        phis["P"] = g(phis)
        pv = {str(x) for x in z3.z3util.get_vars(phis["P"])}
        for n, f in cs:
            if n not in self.defs: continue
            I, fn = self.defs[n]
            cur = phis[I].off if isinstance(phis[I], Ptr) else phis[I]
            if z3.is_expr(cur) and cur.num_args() == 0 and not z3.is_bv_value(cur) and str(cur) not in pv: phis[I] = fn(phis)
        fm.havoc(ex, st, phis["P"])
        for n, f in cs: st.assume(f(phis))
        if self.after: self.after(ex, st, hdr, phis, {n for n, f in cs})
        for I in phis0: phis0[I] = phis[I]
        return (dict(st.mem), dict(phis), cs, (combo, g, fm))

    def back(self, ex, st, hdr, phis, saved):
        snap, head, cs, (combo, g, fm) = saved
        line = hdr.insts[-1].line
        d = self.dropped.setdefault((self.key(ex, st, hdr), "combo"), set())
        if combo in d: raise PathEnd()
        other = [r for r in changed_regions(st, snap) if r not in fm.regions(ex, st)]
        if other and ex.infer:
            self.drop_combo(d, combo, hdr)
            raise PathEnd()
        if other: raise Unsupported(f"the loop at line {line} writes {[st.mem[r].name for r in other]}")
        e = self.env(st, phis)
        self.holds(ex, st, fm.check(ex, st, g(e)), combo, d, "is preserved", line, hdr)
        e["P"] = g(e)
        k = self.key(ex, st, hdr)
        for I, v in phis.items():
            if isinstance(v, Ptr) and isinstance(head[I], Ptr) and v.r != head[I].r: raise Unsupported("loop pointer changes object")
        dd = self.dropped.setdefault(k, set())
        self.test(ex, st, hdr, e, [(n, f) for n, f in cs if n not in dd], dd, "is preserved")
        self.variant(ex, st, hdr, {I: v for I, v in phis.items()}, head, k)
