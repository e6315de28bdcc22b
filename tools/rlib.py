"""The R package of the repository without installing it: its C++ glue is compiled against the cached objects of the
library, its R files are sourced (harness/r/load.R)."""
import glob, os, shutil, subprocess, tempfile
import vlib
from vlib import CheckError, BUILD, ENV, REPO, VERIF, sha, fhash


NAMES = {"Rpackage": "ldt", "Rpackage_F": "tdata"}


def _generate(pkg):
    """RcppExports for the current glue code."""
    src = sorted(glob.glob(os.path.join(REPO, pkg, "src", "r_*.cpp")) + glob.glob(os.path.join(REPO, pkg, "src", "r_*.h")))
    out = os.path.join(BUILD, "rgen", sha(pkg, *[os.path.basename(s) + fhash(s) for s in src])[:16])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=os.path.dirname(out))
        p = os.path.join(tmp, "pkg")
        os.makedirs(os.path.join(p, "src"))
        os.makedirs(os.path.join(p, "R"))
        for s in src:
            shutil.copy(s, os.path.join(p, "src"))
        open(os.path.join(p, "DESCRIPTION"), "w").write("Package: %s\nVersion: 0\nLinkingTo: Rcpp\nImports: Rcpp\n" % NAMES[pkg])
        open(os.path.join(p, "NAMESPACE"), "w").write("useDynLib(%s)\n" % NAMES[pkg])
        r = subprocess.run(["Rscript", "--vanilla", "-e", "Rcpp::compileAttributes('%s')" % p], capture_output=True, text=True, env=ENV)
        if r.returncode:
            raise CheckError("compileAttributes failed:\n" + r.stderr[-2000:])
        fin = os.path.join(tmp, "fin")
        os.makedirs(fin)
        shutil.copy(os.path.join(p, "src", "RcppExports.cpp"), fin)
        shutil.copy(os.path.join(p, "R", "RcppExports.R"), fin)
        for f in src:   # compiled from here: the package's own directory may hold old copies of the library's headers
            shutil.copy(f, fin)
        try:
            os.rename(fin, out)
        except OSError:
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    return out


_inc = None


def includes():
    global _inc
    if _inc is None:
        r = subprocess.run(["Rscript", "--vanilla", "-e", "cat(R.home('include'), system.file('include', package='Rcpp'))"], capture_output=True, text=True, env=ENV)
        if r.returncode:
            raise CheckError("no R: " + r.stderr[-500:])
        _inc = tuple("-I" + d for d in r.stdout.split()) + ("-I/usr/share/R/include",)
    return _inc


def build(pkg="Rpackage"):
    """(shared library, generated R file)"""
    gen = _generate(pkg)
    extra = includes()
    glue = sorted(glob.glob(os.path.join(gen, "*.cpp")))
    objs = vlib.compile_many([(g, extra) for g in glue] + vlib.sources())
    d = os.path.join(BUILD, "rlib", sha(*objs)[:16])
    so = os.path.join(d, NAMES[pkg] + ".so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = so + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-shared", "-fopenmp"] + list(objs) + ["-o", tmp, vlib.L + "/liblapack.so", vlib.L + "/libblas.so", "-lpthread"],
                           capture_output=True, text=True, env=ENV)
        if r.returncode:
            raise CheckError("link of the R library failed\n" + r.stderr[-3000:])
        os.replace(tmp, so)
    return so, os.path.join(gen, "RcppExports.R")


def fastsleep():
    src = os.path.join(VERIF, "harness", "fastsleep.c")
    so = os.path.join(BUILD, "rlib", "fastsleep-%s.so" % fhash(src)[:16])
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = so + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", src, "-o", tmp], capture_output=True, text=True, env=ENV)
        if r.returncode:
            raise CheckError("fastsleep: " + r.stderr[-1000:])
        os.replace(tmp, so)
    return so


def drive(c, script, args=(), native=True, timeout=600, name="r", env=None, pkg="Rpackage"):
    """Runs harness/r/<script>.R; its stdout lines are records."""
    so, exports = build(pkg) if native else ("-", "-")
    argv = ["--vanilla", os.path.join(VERIF, "harness", "r", script + ".R"), os.path.join(VERIF, "harness", "r", "load.R"),
            os.path.join(REPO, pkg, "R"), so, exports] + [str(a) for a in args]
    env = dict(env or {})
    if native:
        env["LD_PRELOAD"] = fastsleep()
    # (bounded memory: a loop that collects without end is a finding, not the end of the sandbox)
    return c.drive("prlimit", ["--as=8000000000", shutil.which("Rscript") or "Rscript"] + argv, timeout=timeout, name=name, env=env)
