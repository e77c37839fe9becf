from dv import build, nat
from . import rb

OPS01 = ["into", "out", "move", "discard", "resize", "normalize", "reset", "ctor"]


def harness():
    _, L = build.module(rb.SRC, text=rb.WRAP)
    off = {}
    fs = {o: f for o, t, f in L.fields(rb.CLS)}
    defs = []
    for nm, mac in zip(rb.FIELDS, ("M_BUF", "M_END", "M_READ", "M_WRITE")):
        defs.append(f"-D{mac}={fs[L.off(rb.CLS, nm, rb.FIELDS)]}")
    import os
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return build.native("rbh", os.path.join(root, "harness/rb_harness.cpp"),
                        ["source/cyCore/core/cyc_ring_buf.cpp", "source/cyCrypt/crypt/cyr_adler32.cpp"], flags=nat.ASAN + tuple(defs))


def line(d):
    if "end" not in d or d["end"] > 4096 or d.get("op") is None: return None
    if d["op"] in ("into", "resize", "ctor") and d.get("count", 0) > 1 << 20: return None
    c = d.get("count", 0)
    a = d.get("dend", d.get("off", d.get("a", 0)))
    b = d.get("dread", d.get("byte", 0))
    e = d.get("dwrite", 0)
    return f"{d['op']} {d['end']} {d['read']} {d['write']} {c} {a} {b} {e} " + " ".join(map(str, d.get("data", [])))


def replay(failed, errors, seed, ops, secs=25):
    h = harness()
    cases = [l for l in (line(o.cex) for o in failed if o.cex) if l]
    return nat.confirm(h, cases, ops, seed, secs)
