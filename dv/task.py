"""A verification task: one function (or lemma) under contract."""
import time, traceback, z3, sys
from .exec import *
from . import exec as E


class TaskResult:
    def __init__(self, name):
        self.name, self.obls, self.error, self.time, self.paths = name, [], None, 0.0, 0
        self.inlined, self.contracts, self.solver_time, self.covers = [], [], 0.0, 0
        self.kind = "proof"
        self.stats = {}


class V:
    """handed to a task body: wraps an Exec plus reporting"""

    def __init__(self, name, tier):
        self.name, self.tier = name, tier
        self.res = TaskResult(name)
        self.execs = []
        self.bounded = None

    def exec(self, module, fn=None, **kw):
        ex = Exec(module, **kw)
        ex.fnname = fn or self.name
        ex.obls = self.res.obls
        self.execs.append(ex)
        return ex

    def strategies(self, *bodies):
        """alternative proofs of the same contract: the first that discharges every obligation counts; if none does, the
        one with a definite counterexample (else the last) is reported"""
        base, best = list(self.res.obls), None
        for k, b in enumerate(bodies):
            self.res.obls[:] = base
            err = None
            FAILS[0] = 0
            try: b(self)
            except Enough: pass
            except Unsupported as e: err = e
            got = list(self.res.obls)
            bad = [o for o in got if o.status != "proved"]
            if not err and not bad: return
            rank = (2 if any(o.status == "failed" for o in bad) else 1 if err is None else 0, k)
            if best is None or rank > best[0]: best = (rank, got, err)
        self.res.obls[:] = best[1]
        if best[2] is not None: raise best[2]

    def cover(self, ex, st, what="precondition"):
        """vacuity guard: the assumptions must be satisfiable"""
        o = Obl(f"{what} is satisfiable", ex.fnname, 0, "cover")
        t = time.time()
        s = z3.Solver(); s.set("timeout", 20000); s.add(*st.pc)
        r = s.check()
        o.time = time.time() - t
        if r == z3.unsat:
            o.status = "failed"; o.detail = "vacuous: the assumptions are contradictory"
            self.res.obls.append(o)
        else:
            self.res.covers += 1

    def lemma(self, name, hyps, goal, timeout=60000, tactic=None):
        """a closed logical obligation (ghost lemma)"""
        o = Obl(name, self.name, 0, "lemma")
        self.res.obls.append(o)
        t = time.time()
        r, m, b = prove(hyps, goal, timeout, tactic)
        o.time = time.time() - t
        self.res.solver_time += o.time
        o.backend = b
        o.status = "proved" if r == "proved" else ("failed" if r == "sat" else "unknown")
        if m is not None: o.detail = str(m)[:2000]
        return r == "proved"

    def fact(self, name, ok, detail="", backend="evaluation"):
        """a ground obligation decided by evaluation"""
        o = Obl(name, self.name, 0, "ground")
        o.status = "proved" if ok else "failed"
        o.backend, o.detail = backend, detail
        self.res.obls.append(o)
        return ok


CURRENT = [None]


def run_task(name, body, tier, budget):
    v = CURRENT[0] = V(name, tier)
    t = time.time()
    try:
        body(v)
        if not v.res.obls:
            v.res.error = "no obligation was generated"
    except Enough:
        pass
    except Unsupported as e:
        v.res.error = f"outside the verifier's reach: {e}"
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError, AssertionError, RuntimeError, z3.Z3Exception) as e:
        v.res.error = f"cannot be brought under contract: {e!r}\n" + traceback.format_exc()[-1500:]
    except Exception as e:
        v.res.error = f"cannot be brought under contract: {e!r}\n" + traceback.format_exc()[-1500:]
    v.res.time = time.time() - t
    for ex in v.execs:
        v.res.paths += ex.paths
        v.res.inlined += sorted(ex.used)
        v.res.contracts += sorted(ex.contracts_used)
        v.res.solver_time += ex.solver_time
    v.res.stats = dict(E.STATS)
    return v.res
