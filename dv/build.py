"""Builds LLVM IR (for the verifier) and native harnesses (for replay) from /repo's current working tree."""
import os, re, subprocess, tempfile, shutil, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import llvm

REPO = os.environ.get("DV_REPO", "/repo")
_scratch = None
CXXSTD = "-std=gnu++14"
CONFIG_ON = {"CY_HAVE_UNISTD_H", "CY_HAVE_INTTYPES_H", "CY_HAVE_SYS_UIO_H", "CY_HAVE_SYS_EVENTFD_H", "CY_SYS_LINUX",
             "CY_HAVE_EPOLL", "CY_HAVE_READWRITE_V", "CY_HAVE_PIPE2", "CY_HAVE_TIMERFD", "CY_HAVE_TIMED_LOCK", "CY_ENABLE_LOG"}


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="dv_")
        pid = os.getpid()

        def rm(p=_scratch):
            if os.getpid() == pid: shutil.rmtree(p, ignore_errors=True)
        atexit.register(rm)
    return _scratch


def config_dir():
    d = os.path.join(scratch(), "cfg")
    if not os.path.isdir(d):
        os.makedirs(d)
        src = open(os.path.join(REPO, "source/cyclone_config.h.in"), encoding="utf-8-sig").read()
        out = []
        for line in src.splitlines():
            m = re.match(r"^\s*#cmakedefine\s+(\w+)(.*)$", line)
            if m:
                out.append(f"#define {m.group(1)}{m.group(2)}" if m.group(1) in CONFIG_ON else f"/* #undef {m.group(1)} */")
            else: out.append(line)
        open(os.path.join(d, "cyclone_config.h"), "w").write("\n".join(out) + "\n")
    return d


def incs(extra=()):
    S = os.path.join(REPO, "source")
    ds = [config_dir()] + [os.path.join(S, x) for x in ("cyCore", "cyEvent", "cyNetwork", "cyCrypt", "cyUtility")]
    ds += [os.path.join(REPO, x) if not x.startswith("/") else x for x in extra]
    return [f"-I{d}" for d in ds]


def _one(args):
    i, src, extra, flags = args
    out = os.path.join(scratch(), f"u{i}_{os.getpid()}_{hashlib.md5((src+str(flags)).encode()).hexdigest()[:6]}.bc")
    cmd = ["clang++-18", CXXSTD, "-include", "memory", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions",
           "-fno-discard-value-names", "-gline-tables-only", "-fno-access-control", "-w", "-fno-inline",
           "-Xclang", "-fdump-record-layouts", "-fno-crash-diagnostics", "-D_GNU_SOURCE", "-pthread"] + list(flags) + incs(extra) + \
          ["-c", "-emit-llvm", src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(f"clang failed on {src}:\n{r.stderr[-3000:]}")
    return out, r.stdout


_mods = {}


def module(sources, extra=(), flags=(), text=None, passes="function(sroa,simplifycfg,loop-simplify)"):
    """compile + link the given sources (paths relative to /repo, or absolute) and return (Module, layouts)"""
    key = (tuple(sources), tuple(extra), tuple(flags), text)
    if key in _mods: return _mods[key]
    srcs = [s if s.startswith("/") else os.path.join(REPO, s) for s in sources]
    if text:
        p = os.path.join(scratch(), f"wrap_{hashlib.md5(text.encode()).hexdigest()[:8]}.cpp")
        open(p, "w").write(text)
        srcs.append(p)
    for s in srcs:
        if not os.path.exists(s): raise BuildError(f"source file {s} is missing")
    config_dir()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_one, [(i, s, extra, flags) for i, s in enumerate(srcs)]))
    lay = {}
    for _, t in res:
        for k, v in llvm.parse_layouts(t).items(): lay.setdefault(k, v)
    linked = os.path.join(scratch(), f"mod{len(_mods)}_{os.getpid()}.bc")
    r = subprocess.run(["llvm-link-18"] + [o for o, _ in res] + ["-o", linked], capture_output=True, text=True)
    if r.returncode: raise BuildError("llvm-link: " + r.stderr[-2000:])
    opt = linked.replace(".bc", ".opt.bc")
    r = subprocess.run(["opt-18", f"-passes={passes}", linked, "-o", opt], capture_output=True, text=True)
    if r.returncode: raise BuildError("opt: " + r.stderr[-2000:])
    m = llvm.Module(opt)
    _mods[key] = (m, Layouts(lay))
    return _mods[key]


class Layouts:
    def __init__(self, d): self.d = d

    def find(self, cls):
        if cls in self.d: return cls
        c = [k for k in self.d if k == cls or k.endswith("::" + cls)]
        if len(c) == 1: return c[0]
        norm = lambda s: re.sub(r"(\d)[uU]?[lL]*\b", r"\1", s.replace(" ", "").replace("unsignedint", "uint32_t").replace("unsignedlong", "uint64_t"))
        for k in self.d:
            if norm(k) == norm(cls): return k
        raise BuildError(f"no record layout for {cls}")

    def sizeof(self, cls):
        for o, t, f in self.d[self.find(cls)]:
            if f == "<sizeof>": return o
        raise BuildError("sizeof " + cls)

    def fields(self, cls):
        return [x for x in self.d[self.find(cls)] if not x[2].startswith("<")]

    def off(self, cls, field, expected=None):
        """offset of a field; a renamed private field is found by its position among `expected` (the field names in
        declaration order when the contracts were written)"""
        fs = self.fields(cls)
        for o, t, f in fs:
            if f == field: return o
        if expected and len(expected) == len(fs) and field in expected:
            known = set(expected)
            i = expected.index(field)
            if fs[i][2] not in known: return fs[i][0]
        raise BuildError(f"class {cls} has no field {field}")


def native(name, main_src, sources, extra=(), flags=("-O1", "-g"), libs=("-pthread",), compiler="g++"):
    """native build of a harness against /repo's sources (real code, real libc)"""
    out = os.path.join(scratch(), name)
    srcs = [s if s.startswith("/") else os.path.join(REPO, s) for s in sources]
    objs = []
    base = [compiler, CXXSTD, "-include", "memory", "-w", "-fno-access-control", "-D_GNU_SOURCE", "-pthread"] + list(flags) + incs(extra)

    def cc(a):
        i, s = a
        o = os.path.join(scratch(), f"{name}_{i}.o")
        r = subprocess.run(base + ["-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode: raise BuildError(f"{compiler} failed on {s}:\n{r.stderr[-3000:]}")
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, enumerate([main_src] + srcs)))
    r = subprocess.run([compiler] + list(flags) + objs + ["-o", out] + list(libs), capture_output=True, text=True)
    if r.returncode: raise BuildError(f"link of {name} failed:\n{r.stderr[-3000:]}")
    return out


def scheduled(name, main_src, sources=(), extra=(), flags=("-O1", "-g"), libs=("-pthread",)):
    """native build whose atomic operations are scheduling points: instrumented by -fsanitize=thread, linked against harness/sched.cpp instead of its runtime"""
    H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
    out = os.path.join(scratch(), name)
    srcs = [main_src] + [s if s.startswith("/") else os.path.join(REPO, s) for s in sources]
    base = ["clang++-18", CXXSTD, "-include", "memory", "-w", "-fno-access-control", "-D_GNU_SOURCE", "-pthread", "-I" + H] + list(flags) + incs(extra)

    def cc(a):
        i, s, f = a
        o = os.path.join(scratch(), f"{name}_{i}.o")
        r = subprocess.run(base + f + ["-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode: raise BuildError(f"clang failed on {s}:\n{r.stderr[-3000:]}")
        return o
    jobs = [(i, s, ["-fsanitize=thread"]) for i, s in enumerate(srcs)] + [(len(srcs), os.path.join(H, "sched.cpp"), [])]
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, jobs))
    r = subprocess.run(["clang++-18"] + objs + ["-o", out] + list(libs), capture_output=True, text=True)
    if r.returncode: raise BuildError(f"link of {name} failed:\n{r.stderr[-3000:]}")
    return out
