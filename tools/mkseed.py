#!/usr/bin/env python3
"""Plants a bug in a scratch copy of /repo, confirms it (builds, stable tests pass, demo tells it apart) and stores it in /verif/seeded/<id>/.
usage: mkseed.py DIR   where DIR has seed.json {"id","property","needs","what_it_breaks","edits":[{"file","old","new"}]} and demo.cpp (optionally demo.sh)"""
import sys, os, json, subprocess, shutil
D = sys.argv[1]
J = json.load(open(D + "/seed.json"))
T = "/tmp/seedtree"
BOMS = True
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
if os.path.isdir(T): shutil.rmtree(T)
sh(f"cp -a /repo {T}")
sh(f"git -C {T} checkout -q -- .")
for e in J["edits"]:
    p = f"{T}/{e['file']}"
    s = open(p, newline="").read()
    assert s.count(e["old"]) == 1, (e["file"], s.count(e["old"]), e["old"])
    open(p, "w", newline="").write(s.replace(e["old"], e["new"]))
patch = sh(f"git -C {T} diff").stdout
# do the patched lines exist in the base commit?
b = sh(f"sed 's#/repo#{T}#g' /opt/vp/build.sh > {T}.build.sh; sed 's#/repo#{T}#g; s#/opt/vp/build.sh#{T}.build.sh#' /opt/vp/test.sh > {T}.test.sh; rm -rf {T}/_build; bash {T}.build.sh")
if b.returncode: print(b.stdout[-3000:], b.stderr[-2000:]); sys.exit("does not build")
if os.environ.get("NOTEST") is None:
    for attempt in range(3):
        sh(f"bash {T}.test.sh {T}.json")
        r = json.load(open(f"{T}.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base.get("stable", base.get("passed", base)) if isinstance(base, dict) else base
        bad = [n for n in names if n not in r["passed"]]
        if not bad: break
    print("tests failing:", bad)
    if bad: sys.exit(1)
out = f"/verif/seeded/{J['id']}"
os.makedirs(out, exist_ok=True)
DEMO = """#!/bin/bash
# run with cwd = the repository, after its build; exit 0: behaves as the property says
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std=gnu++14 -include memory -w -g %s -fno-access-control -I"$R/_build/source" -I"$R/source/cyCore" -I"$R/source/cyEvent" -I"$R/source/cyNetwork" -I"$R/source/cyCrypt" -I"$R/source/cyUtility" -I"$R" "$H/demo.cpp" %s -o "$W/demo" -pthread || exit 3
cd "$W" && timeout %d ./demo
"""
libs = "$R/_build/source/libcyclone.a" if J.get("src") is None else " ".join(f"\"$R/{x}\"" for x in J["src"])
open(out + "/demo.sh", "w").write(open(D + "/demo.sh").read() if os.path.exists(D + "/demo.sh") else DEMO % (J.get("flags", ""), libs, J.get("timeout", 120)))
for f in os.listdir(D):
    if f not in ("seed.json", "demo.sh"): shutil.copy(f"{D}/{f}", out)
open(out + "/patch.diff", "w").write(patch)
json.dump({k: J[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
os.chmod(out + "/demo.sh", 0o755)
bad = sh(f"bash {out}/demo.sh", cwd=T)
good = [sh(f"bash {out}/demo.sh", cwd="/repo") for _ in range(3)]
print("demo on bug:", bad.returncode, (bad.stdout + bad.stderr)[-300:])
print("demo on good:", [g.returncode for g in good], (good[0].stdout + good[0].stderr)[-300:])
ok = bad.returncode not in (0, 3) and all(g.returncode == 0 for g in good)
print("SEED", J["id"], "OK" if ok else "NOT CONFIRMED")
if not ok: shutil.rmtree(out)
