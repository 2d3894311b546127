"""Harness -> LLVM bitcode (from /repo's current sources) and native replay binaries."""
import os, re, subprocess, sys, hashlib, shutil, tempfile
from . import llvm as ll
import ctypes as C

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
CXX, CC = "clang++-18", "clang-18"
if shutil.which(CXX) is None:
    CXX, CC = "clang++", "clang"
BASE = ["-w", "-I", HARNESS, "-I", os.path.join(REPO, "src"), "-g0", "-fno-strict-aliasing", "-ffp-contract=off",
        "-fno-vectorize", "-fno-slp-vectorize", "-fcf-protection=none", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-DNDEBUG", "-DVDF_MODE=0"]

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), (p.stderr or p.stdout)[-3000:]))
    return p.stdout

class Spec:
    """Directives found in a harness file's leading comments."""
    def __init__(self, path):
        self.path = path
        self.flags, self.link, self.stubs, self.std = [], [], [], "c++17"
        for line in open(path, encoding="utf-8"):
            m = re.match(r"//\s*VP_(\w+):\s*(.*)", line.rstrip())
            if not m:
                continue
            k, v = m.groups()
            if k == "FLAGS": self.flags += v.replace("$REPO", REPO).replace("$HARNESS", HARNESS).split()
            elif k == "LINK": self.link += v.split()
            elif k == "STUB":
                rx, sym = v.split(" -> ")
                self.stubs.append((rx.strip(), sym.strip()))
            elif k == "STD": self.std = v

def compile_raw(spec, out, extra=(), native=False):
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,function", "-O0", "-g1"] if native else ["-O1", "-Xclang", "-disable-llvm-passes"]
    if native:
        san += ["-Xclang", "-disable-llvm-passes"]
    outs = []
    def one(src, o, cxx):
        cmd = [CXX if cxx else CC] + (["-std=" + spec.std] if cxx else ["-std=gnu11"]) + BASE + san + spec.flags + list(extra) + ["-c", "-emit-llvm", src, "-o", o]
        sh(cmd)
        outs.append(o)
    one(spec.path, out + ".h.bc", True)
    for i, s in enumerate(spec.link):
        s = s.replace("$REPO", REPO)
        src = s if os.path.isabs(s) else os.path.join(REPO, s)
        one(src, out + ".%d.bc" % i, not src.endswith(".c"))
    if len(outs) > 1:
        sh(["llvm-link-18"] + outs + ["-o", out])
        for o in outs: os.unlink(o)
    else:
        os.rename(outs[0], out)

AddFunction = ll.fn("LLVMAddFunction", ll.P, ll.P, ll.S, ll.P)
DeleteFunction = ll.fn("LLVMDeleteFunction", None, ll.P)
SetName = ll.fn("LLVMSetValueName2", None, ll.P, ll.S, C.c_size_t)

def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names) + "\n", capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))

def prepare(raw, out, spec, models=True):
    """Redirect stubbed functions; turn modelled functions into declarations."""
    from . import models as M
    m = ll.load(raw)
    fs = list(ll.functions(m))
    names = [ll.name(f) for f in fs]
    dem = demangle(names)
    used = []
    for rx, sym in spec.stubs:
        stub = ll.NamedFn(m, sym.encode())
        if not stub:
            raise BuildError("stub %s missing" % sym)
        r = re.compile(rx)
        hit = 0
        for f, n in zip(fs, names):
            if n != sym and r.search(dem[n]):
                ll.RAUW(f, stub)
                hit += 1
        used.append((rx, sym, hit))
    if models:
        for f, n in zip(fs, names):
            if ll.IsDeclaration(f) or n.startswith("vp_main"):
                continue
            if n in M.MODELS or any(rx.search(dem[n]) for rx, h in M.PATTERNS):
                SetName(f, (n + ".vp_real").encode(), len(n) + 8)
                d = AddFunction(m, n.encode(), ll.GlobalValueType(f))
                ll.RAUW(f, d)
                DeleteFunction(f)
    ll.WriteBitcode(m, out.encode())
    return used, dem

def prepare_sub(raw, out, harness, models):
    """prepare() in a process of its own: the LLVM C API is not thread-safe."""
    import json
    p = subprocess.run([sys.executable, "-c", "import sys,json; sys.path.insert(0,%r)\nfrom engine import build as b\ntry: print('@@'+json.dumps(b.prepare(%r,%r,b.Spec(%r),%r)[0]))\nexcept b.BuildError as e: print('@!'+str(e))" % (VERIF, raw, out, harness, models)],
                       capture_output=True, text=True)
    for l in p.stdout.splitlines():
        if l.startswith("@@"): return [tuple(x) for x in json.loads(l[2:])]
    raise BuildError((p.stdout + p.stderr)[-3000:])

def build_symbolic(harness, workdir, extra=(), entry="vp_main", olevel="O1"):
    spec = Spec(harness)
    os.makedirs(workdir, exist_ok=True)
    b = os.path.join(workdir, os.path.basename(harness).replace(".", "_"))
    raw, pre, fin = b + ".raw.bc", b + ".pre.bc", b + ".bc"
    compile_raw(spec, raw, extra)
    used = prepare_sub(raw, pre, harness, True)
    sh(["opt-18", "-passes=internalize,globaldce,default<%s>,globaldce" % olevel, "-internalize-public-api-list=" + entry,
        "-vectorize-loops=false", "-vectorize-slp=false", "--enable-loop-distribute=false", pre, "-o", fin])
    return fin, used

def load_module(path):
    from .symex import Module
    m = Module(path, {})
    m.dem.update(demangle(list(m.fnrefs)))
    return m

def build_native(harness, workdir, extra=()):
    spec = Spec(harness)
    os.makedirs(workdir, exist_ok=True)
    b = os.path.join(workdir, os.path.basename(harness).replace(".", "_") + "_native")
    raw, pre = b + ".raw.bc", b + ".pre.bc"
    compile_raw(spec, raw, extra, native=True)
    prepare_sub(raw, pre, harness, False)
    exe = b + ".exe"
    sh([CXX, "-w", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", pre, "-x", "c++", "-I", HARNESS, os.path.join(HARNESS, "vp_native.cpp"),
        "-x", "none", "-o", exe, "-lgmpxx", "-lgmp", "-lpthread", "-Wl,--unresolved-symbols=ignore-all", "-no-pie"])
    return exe

def replay(exe, path, timeout=120):
    env = dict(os.environ, VP_REPLAY=path, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    try:
        p = subprocess.run([exe], env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""
    return p.returncode, (p.stderr or "")[-4000:]
