"""Check driver:  python3-vt -m dv.driver C01      (tier and seed from VERIF_TIER / VERIF_SEED)"""
import sys, os, json, time, importlib, traceback, multiprocessing as mp, signal, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from dv import build, exec as E, libc, task
from dv.task import run_task, TaskResult


def known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "finding": out.append(d)
    return out


def worker(i, name, body, tier, budget, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    E.STATS.update({k: 0 for k in E.STATS})
    if tier == "thorough": E.SECOND_BACKEND[0] = True
    if os.environ.get("DV_DUMP"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["DV_DUMP"]), repeat=True)
    lock = threading.Lock()

    def report(r):
        with lock:
            try:
                q.send(r)
            except Exception as e:
                r2 = TaskResult(name); r2.error = f"result not transferable: {e!r}"
                q.send(r2)
            q.close()
            os._exit(0)

    def watch(start=time.time()):
        """a solver call that ignores its time limit must not hide what has already failed"""
        while True:
            time.sleep(1)
            now = time.time()
            over = now - start > budget - 5
            if over or E.FAILS[0] and now - E.FAILS[1] > 60:
                r = TaskResult(name)
                v = task.CURRENT[0]
                r.obls = list(v.res.obls) if v else []
                if r.obls and r.obls[-1].status == "unknown" and not r.obls[-1].detail: r.obls[-1].detail = "not decided in time"
                if over: r.error = f"time budget of {budget:.0f} s exhausted"
                report(r)
    threading.Thread(target=watch, daemon=True).start()
    report(run_task(name, body, tier, budget))


def run_all(tasks, tier, budget, jobs=8):
    """each task in its own forked process, at most `jobs` at a time"""
    ctx = mp.get_context("fork")
    pend = list(enumerate(tasks))
    running, results = {}, [None] * len(tasks)
    start = time.time()
    while pend or running:
        while pend and len(running) < jobs:
            i, (name, body) = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(i, name, body, tier, budget, w))
            p.start()
            w.close()
            running[i] = (p, r, name)
        for i, (p, r, name) in list(running.items()):
            if r.poll(0.01):
                try: results[i] = r.recv()
                except EOFError:
                    results[i] = TaskResult(name); results[i].error = "worker process died (memory or crash)"
                p.join(); del running[i]
            elif not p.is_alive() and not r.poll(0.05):
                results[i] = TaskResult(name); results[i].error = "worker process died (memory or crash)"
                del running[i]
        if time.time() - start > budget:
            for i, (p, r, name) in running.items():
                p.kill(); p.join()
                results[i] = TaskResult(name); results[i].error = f"time budget of {budget:.0f} s exhausted"
            for i, (name, _) in pend:
                results[i] = TaskResult(name); results[i].error = "not started: time budget exhausted"
            break
    return results


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    only = sys.argv[2] if len(sys.argv) > 2 else None
    verbose = bool(os.environ.get("DV_VERBOSE"))
    spec = importlib.import_module(f"specs.{pid.lower()}")
    cap = 1 if False else 0
    try:
        spec.build()
        tasks = spec.tasks(tier)
    except build.BuildError as e:
        # the contract's anchor is gone, or the tree does not compile
        print(f"ERROR: {e}", file=sys.stderr)
        if "clang failed" in str(e) or not getattr(spec, "native_search", None):
            return 2
        tasks = []
        builderr = str(e)
    else:
        builderr = None
    if only: tasks = [t for t in tasks if only in t[0]]
    budget = float(os.environ.get("DV_BUDGET", 480)) if tier == "quick" else 3 * 3600
    results = run_all(tasks, tier, budget) if tasks else []
    obls = [o for r in results for o in r.obls]
    failed = [o for o in obls if o.status != "proved"]
    errors = [r for r in results if r.error]
    if builderr:
        e = TaskResult("contract anchors"); e.error = builderr
        errors.append(e); results.append(e)
    if verbose or failed or errors:
        for r in results:
            bad = [o for o in r.obls if o.status != "proved"]
            print(f"  {r.name}: {len(r.obls) - len(bad)}/{len(r.obls)} obligations, {r.paths} paths, {r.time:.1f}s (solver {r.solver_time:.1f}s)" + (f" ERROR {r.error}" if r.error else ""))
            if verbose:
                for o in bad: print(f"     {o.status.upper()} [{o.kind}] {o.name} (line {o.line}) {o.detail[:400]}")
    # findings that are recorded rather than repaired
    kf = known(pid)
    kf_hit = []
    if kf and failed:
        rest = []
        for o in failed:
            m = [k for k in kf if k.get("obligation") == f"{o.fn}: {o.name}"]
            if m: kf_hit += [k for k in m if k not in kf_hit]
            else: rest.append(o)
        failed_new = rest
    else: failed_new = failed
    violations = 0
    lines = []
    if failed_new or errors:
        violations = 1
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{pid}.txt")
        confirmed = None
        note = ""
        if getattr(spec, "replay", None):
            try: confirmed = spec.replay(failed_new, errors, seed, tier)
            except build.BuildError as e: note = f"native harness could not be built: {e}"
            except Exception as e: note = f"native replay failed: {e!r}\n{traceback.format_exc()[-800:]}"
        with open(rp, "w") as f:
            f.write(f"property {pid}\n")
            for o in failed_new:
                f.write(f"FAILED OBLIGATION {o.fn}: {o.name} (source line {o.line}, {o.kind}, {o.status} by {o.backend})\n  {o.detail}\n")
                if o.cex: f.write(f"  verifier counterexample: {json.dumps(o.cex)}\n")
            for r in errors: f.write(f"UNDISCHARGED CONTRACT {r.name}: {r.error}\n")
            if note: f.write(note + "\n")
            if confirmed: f.write("CONFIRMED ON THE REAL CODE:\n" + confirmed + "\n")
        for o in failed_new[:10]: print(f"failed obligation: {o.fn}: {o.name} (line {o.line}) [{o.status}]")
        for r in errors[:10]: print(f"undischarged contract: {r.name}: {r.error.splitlines()[0]}")
        if confirmed:
            print("confirmed on the real code: " + confirmed.strip().splitlines()[0][:300])
            lines.append(f"VIOLATION property={pid} replay={rp}")
        else:
            lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    extra = {}
    if not violations and getattr(spec, "thorough_extra", None) and tier == "thorough":
        extra = spec.thorough_extra(seed) or {}
        if extra.get("mismatch"):
            rp = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rp, exist_ok=True)
            rp = os.path.join(rp, f"{pid}.txt")
            open(rp, "w").write(extra["mismatch"])
            violations = 1
            lines.append(f"VIOLATION property={pid} replay={rp}")
    for k in kf: 
        if k in kf_hit or not k.get("obligation"): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    proved = [o for o in obls if o.status == "proved"]
    bk = {}
    for o in proved: bk[o.backend] = bk.get(o.backend, 0) + 1
    inl = sorted({x for r in results for x in r.inlined})
    ctr = sorted({x for r in results for x in r.contracts})
    level = getattr(spec, "LEVEL", "proof")
    cov = {
        "obligations": len(obls) - sum(1 for o in obls if any(k.get("obligation") == f"{o.fn}: {o.name}" for k in kf_hit)),
        "discharged": len(proved),
        "checker_cmd": f"./check {pid}",
        "trusted_base": list(getattr(spec, "TRUSTED", [])) + list(getattr(spec, "COMMON_TRUSTED", COMMON)),
        "functions_under_contract": [r.name for r in results],
        "functions_inlined_from_source": inl,
        "contracts_used_at_calls": ctr,
        "obligations_by_backend": bk,
        "obligations_by_function": {r.name: f"{sum(1 for o in r.obls if o.status == 'proved')}/{len(r.obls)}" for r in results},
        "paths": sum(r.paths for r in results),
        "solver_time_s": round(sum(r.solver_time for r in results), 2),
        "vacuity_checks_passed": sum(r.covers for r in results),
        "bounded": getattr(spec, "BOUNDED", []),
        "extraction_drops": ["exception edges (-fno-exceptions: a throw ends the path)", "debug logging output"],
        "known_findings": [k["what"] for k in kf],
    }
    if tier == "thorough":
        cov["second_backend_cvc5_rechecks"] = sum(r.stats.get("recheck", 0) for r in results)
    cov.update(extra.get("coverage", {}))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(spec, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": violations}
    if not only:
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {len(proved)}/{len(obls)} obligations discharged over {len(results)} contracts, {cov['paths']} paths, solver {cov['solver_time_s']} s, wall {time.time() - t0:.1f} s")
    for l in lines: print(l)
    return 1 if violations else 0


COMMON = ["clang 18 front end and the LLVM passes sroa, simplifycfg, loop-simplify preserve the meaning of the C++ source (the shipped build uses g++)",
          "the verification-condition generator /verif/dv (symbolic executor over LLVM IR)",
          "z3 5.3 / cvc5 1.1 / z3 4.8",
          "exceptions are not modelled (compiled with -fno-exceptions): a throw ends the path",
          "an object's address never equals an integer that was not derived from it; distinct allocations do not alias"]

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
