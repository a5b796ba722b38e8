"""Import skbeam from the repository's working tree with freshly built extensions.

The compiled modules that may lie around in the tree are ignored: the sources
in the tree are compiled into /verif/build/<hash of sources> and an import hook
serves them, so a change to the C or Cython code is always seen."""
import fcntl
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
NEED_HISTOGRAM = {"C05", "C26", "C27"}
NEED_SCHED = {"C07", "C08"}


class EnvError(Exception):
    vc_environment = True


def _sources():
    s = os.path.join(REPO, "src")
    return sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith((".c", ".h")))


def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def _inc():
    import numpy
    return ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise EnvError("build failed: %s\n%s" % (" ".join(cmd), r.stdout.decode("utf8", "replace")[-4000:]))


def _cached(name, key, builder):
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s%s" % (name, key, SUFFIX))
    if os.path.exists(out):
        return out
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = tempfile.mkdtemp(prefix="vcb-")
        try:
            res = builder(tmp)
            shutil.copy(res, out + ".tmp")
            os.replace(out + ".tmp", out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def build_ctrans(openmp=True):
    src = _sources()
    flags = ["-O1", "-g0", "-fwrapv", "-fPIC", "-shared", "-w"] + (["-fopenmp"] if openmp else [])

    def b(tmp):
        o = os.path.join(tmp, "ctrans.so")
        _run(["gcc"] + flags + _inc() + ["-I" + os.path.join(REPO, "src"), os.path.join(REPO, "src", "ctrans.c"),
                                         "-o", o] + (["-lgomp"] if openmp else []) + ["-lm"])
        return o

    return _cached("ctrans", _hash(src, repr(flags) + sys.version), b)


def build_ctrans_sched():
    """the same sources, instrumented and linked with the controlled OpenMP
    runtime in vc/native/sched.c"""
    rt = os.path.join(VERIF, "vc", "native", "sched.c")
    src = _sources() + [rt]

    def b(tmp):
        o = os.path.join(tmp, "ctrans_sched.so")
        a, c = os.path.join(tmp, "a.o"), os.path.join(tmp, "b.o")
        _run(["gcc", "-O0", "-fPIC", "-fopenmp", "-fsanitize=thread", "-w"] + _inc()
             + ["-I" + os.path.join(REPO, "src"), "-c", os.path.join(REPO, "src", "ctrans.c"), "-o", a])
        _run(["gcc", "-O2", "-fPIC", "-w", "-c", rt, "-o", c])
        _run(["gcc", "-shared", "-o", o, a, c, "-lm", "-Wl,-Bsymbolic",
              "-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc"])
        return o

    return _cached("ctrans_sched", _hash(src, "sched1" + sys.version), b)


def build_histogram():
    acc = os.path.join(REPO, "skbeam", "core", "accumulators")
    src = sorted(os.path.join(acc, f) for f in os.listdir(acc) if f.endswith((".pyx", ".pxd", ".pxi", ".h")))
    flags = ["-O0", "-g0", "-fwrapv", "-fPIC", "-shared", "-w"]

    def b(tmp):
        pkg = os.path.join(tmp, "skbeam", "core", "accumulators")
        os.makedirs(pkg)
        for p in (os.path.join(tmp, "skbeam"), os.path.join(tmp, "skbeam", "core"), pkg):
            open(os.path.join(p, "__init__.py"), "w").close()
        for f in src:
            shutil.copy(f, pkg)
        _run([sys.executable, "-m", "cython", "-3", "skbeam/core/accumulators/histogram.pyx"], cwd=tmp)
        o = os.path.join(tmp, "histogram.so")
        _run(["gcc"] + flags + _inc() + [os.path.join(pkg, "histogram.c"), "-o", o, "-lm"])
        return o

    return _cached("histogram", _hash(src, repr(flags) + sys.version), b)


FLAVOUR = "omp"


def use(flavour):
    """forget skbeam and import it again with another build of the kernels"""
    global FLAVOUR
    FLAVOUR = flavour
    for m in [m for m in sys.modules if m == "skbeam" or m.startswith("skbeam.")]:
        del sys.modules[m]
    importlib.invalidate_caches()


class _Finder:
    def __init__(self):
        self.map = {}

    def find_spec(self, name, path=None, target=None):
        if name == "skbeam.ext.ctrans":
            f = {"omp": build_ctrans, "sched": build_ctrans_sched, "serial": lambda: build_ctrans(False)}[FLAVOUR]()
        elif name == "skbeam.core.accumulators.histogram":
            f = build_histogram()
        else:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, f)
        return importlib.util.spec_from_file_location(name, f, loader=loader)


def prepare(pid):
    build_ctrans()
    if pid in NEED_SCHED:
        build_ctrans_sched()
        build_ctrans(False)
    if pid in NEED_HISTOGRAM:
        build_histogram()


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")
