"""Shared machinery: object cache for /repo's sources, TLC runner, evidence, known findings."""
import os, sys, json, hashlib, subprocess, time, re, glob, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OBJ = os.path.join(BUILD, "obj")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
TLAJ = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
L = "/usr/lib/x86_64-linux-gnu"
INC = ["include", "include/math", "include/blas", "include/math/statistics",
       "include/math/statistics/inference", "include/math/statistics/inference/models"]
EXCLUDE = {"mnormal.cpp", "expsmoothing.cpp", "tsfilter.cpp", "api.cpp"}
CXXFLAGS = ["-O1", "-g0", "-fopenmp", "-fPIC", "-w", "-std=c++17"]
CFLAGS = ["-O1", "-g0", "-fPIC", "-w"]
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC")


class CheckError(Exception):
    """The check itself could not run: neither held nor violated."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


_fh = {}


def fhash(path):
    if path not in _fh:
        try:
            with open(path, "rb") as f:
                _fh[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _fh[path] = "missing"
    return _fh[path]


def sources():
    """Every C/C++ source that /repo's build compiles into the library."""
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith((".cpp", ".c")) and f not in EXCLUDE:
                out.append(os.path.join(root, f))
    return sorted(out)


def _rel(p):
    for a, b in ((REPO, "@R"), (VERIF, "@V")):
        if p.startswith(a + "/"):
            return b + p[len(a):]
    return p


def _abs(p):
    return p.replace("@R", REPO, 1) if p.startswith("@R") else p.replace("@V", VERIF, 1) if p.startswith("@V") else p


def compile_one(src, extra=()):
    """Object file of src, from the cache if source, flags and every included repository header are unchanged."""
    c = src.endswith(".c")
    flags = (CFLAGS if c else CXXFLAGS) + list(extra)
    k1 = sha(_rel(src), fhash(src), " ".join(_rel(x) for x in flags))
    depf = os.path.join(OBJ, k1 + ".deps")
    if os.path.exists(depf):
        deps = json.load(open(depf))
        k2 = sha(k1, *[d + fhash(_abs(d)) for d in deps])
        o = os.path.join(OBJ, k2 + ".o")
        if os.path.exists(o):
            return o
    os.makedirs(OBJ, exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=OBJ)
    os.close(fd)
    cmd = ["gcc" if c else "g++"] + flags + ["-I" + os.path.join(REPO, i) for i in INC] + \
          ["-I" + os.path.join(VERIF, "harness"), "-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True, env=ENV)
    if r.returncode:
        os.unlink(tmp)
        raise CheckError("compile failed: %s\n%s" % (src, r.stderr[-3000:]))
    txt = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1]
    deps = sorted({_rel(os.path.normpath(os.path.join(os.getcwd(), d))) for d in txt.split()
                   if os.path.normpath(d).startswith((REPO, VERIF))})
    os.unlink(tmp + ".d")
    k2 = sha(k1, *[d + fhash(_abs(d)) for d in deps])
    o = os.path.join(OBJ, k2 + ".o")
    os.replace(tmp, o)
    with open(depf + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(deps, f)
    os.replace(depf + ".tmp%d" % os.getpid(), depf)
    return o


def compile_many(items, jobs=8):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda it: compile_one(*it) if isinstance(it, tuple) else compile_one(it), items))


def library(match=None):
    """Objects of the library (all, or the sources selected by the predicate)."""
    return compile_many([s for s in sources() if match is None or match(s)])


def driver(name, match=None, extra=()):
    """Builds harness/<name>.cpp against /repo's current sources; returns the executable."""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    objs = compile_many([(src, tuple(extra))] + [s for s in sources() if match is None or match(s)])
    out = os.path.join(BUILD, "bin", name + "-" + sha(*objs)[:16])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-fopenmp"] + list(objs) + list(extra and [e for e in extra if e.startswith("-f")]) +
                           ["-o", tmp, L + "/liblapack.so", L + "/libblas.so", "-lpthread", "-lgfortran"]
                           if os.path.exists(L + "/libgfortran.so") else
                           ["g++", "-fopenmp"] + list(objs) + ["-o", tmp, L + "/liblapack.so", L + "/libblas.so", "-lpthread"],
                           capture_output=True, text=True, env=ENV)
        if r.returncode:
            raise CheckError("link failed: %s\n%s" % (name, r.stderr[-3000:]))
        os.replace(tmp, out)
    return out


def java_overrides():
    src = sorted(glob.glob(os.path.join(VERIF, "spec", "java", "*.java")))
    key = sha(*[fhash(s) for s in src])
    out = os.path.join(BUILD, "java-" + key)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="java-tmp-", dir=BUILD)
        r = subprocess.run(["javac", "-cp", TLAJ, "-d", tmp] + src, capture_output=True, text=True, env=ENV)
        if r.returncode:
            raise CheckError("javac failed\n" + r.stderr[-3000:])
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
            if not os.path.exists(out):
                raise
    return out


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.ok = "No error has been found" in out and rc == 0
        self.invariant = re.findall(r"Invariant (\S+) is violated", out) + re.findall(r"property (\S+) was violated", out)


def tlc(module, cfg=None, env=None, workers=1, heap="2g", timeout=800, args=(), deadlock=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    classes = java_overrides()
    meta = tempfile.mkdtemp(prefix="tlc-")
    cfg = cfg or module
    e = dict(ENV)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", classes + ":" + TLAJ, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", cfg + ".cfg", "-noGenerateSpecTE"] + \
          ([] if deadlock else ["-deadlock"]) + list(args) + [module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), capture_output=True, text=True, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.returncode, r.stdout + r.stderr, time.time() - t)


def run_driver(exe, args=(), timeout=600, env=None, stdin=None):
    e = dict(ENV)
    e.setdefault("OMP_NUM_THREADS", "4")
    e.update({k: str(v) for k, v in (env or {}).items()})
    r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, env=e, timeout=timeout, input=stdin)
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
