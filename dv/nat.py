"""running native harnesses (real code) to confirm a failed obligation"""
import subprocess, os
from . import build


def run(cmd, inp=None, timeout=120, env=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=99"
    e["UBSAN_OPTIONS"] = "halt_on_error=1"
    if env: e.update(env)
    try:
        r = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"


ASAN = ("-O1", "-g", "-fsanitize=address")


def confirm(binary, cases, ops, seed, secs, extra_args=()):
    """first the verifier's counterexamples, then a seeded search over small cases; returns a description or None"""
    for c in cases:
        rc, out, err = run([binary, "case"], c + "\n", 60)
        if rc != 0:
            return (out.strip().splitlines() or ["(no output)"])[-1] + f"\ncase: {c}\nexit status {rc}\n{out}\n{err[-2500:]}\n(verifier counterexample replayed; rerun: echo '{c}' | harness case)"
    rc, out, err = run([binary, "search", str(seed), str(secs)] + list(ops), None, secs + 60)
    if rc != 0:
        last = ""
        try: last = open(binary + ".last").read().splitlines()[0]
        except Exception: pass
        head = [l for l in out.splitlines() if l.startswith("MISMATCH")]
        if rc == -999: head = ["MISMATCH the operation does not terminate"]
        elif not head: head = [f"crash or memory error (exit status {rc}) on case: {last}"]
        return head[0] + f"\n{out[-1500:]}\nlast case: {last}\n{err[-2500:]}\n(found by seeded search, seed {seed})"
    return None
