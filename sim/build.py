"""Builds the compiled parts of scikit-beam from the repository's current sources.

Everything is written to a content-addressed cache directory below /verif/.build (ignored by git);
nothing is written in the repository.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from .core import REPO, VERIF

CACHE = os.path.join(VERIF, ".build")
CSIM = os.path.join(VERIF, "sim", "csim")
EXT = sysconfig.get_config_var("EXT_SUFFIX")


class BuildError(Exception):
    pass


def _sha(*paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def _run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


class _Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _includes():
    import numpy as np

    return ["-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(), "-I" + os.path.join(REPO, "src")]


WRAPS = [
    "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memset",
    "PyMem_Malloc", "PyMem_Calloc", "PyMem_Realloc", "PyMem_Free",
    "PyMem_RawMalloc", "PyMem_RawCalloc", "PyMem_RawRealloc", "PyMem_RawFree",
]


def ctrans_sim(opt="-O1", openmp=True):
    """ctrans.c against the simulated OpenMP/TSan/allocator runtime -> path of the shared object."""
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c"))) + sorted(glob.glob(os.path.join(REPO, "src", "*.h")))
    rts = sorted(glob.glob(os.path.join(CSIM, "*")))
    rts = [r for r in rts if os.path.basename(r) in ("simrt.c", "simrt.h", "simnp.c")]
    key = _sha(*(srcs + rts), extra=sys.version + opt + str(openmp) + "v1")
    with _Lock():
        outdir = os.path.join(CACHE, "ctrans-" + key)
        out = os.path.join(outdir, "ctrans" + EXT)
        if os.path.exists(out):
            return out
        tmp = tempfile.mkdtemp(dir=CACHE)
        try:
            inc = _includes()
            base = ["gcc", "-fPIC", "-g0", "-DNDEBUG", "-fwrapv", "-fno-strict-overflow", "-w"]
            objs = []
            for s in srcs:
                if s.endswith(".c"):
                    o = os.path.join(tmp, os.path.basename(s) + ".o")
                    _run(base + [opt] + (["-fopenmp"] if openmp else []) + ["-fsanitize=thread", "-fno-builtin-malloc", "-c", s, "-o", o] + inc)
                    # redirect the allocator for this object only
                    args = []
                    for w in WRAPS:
                        args += ["--redefine-sym", "%s=__wrap_%s" % (w, w)]
                    _run(["objcopy"] + args + [o])
                    objs.append(o)
            o = os.path.join(tmp, "simrt.o")
            _run(base + ["-O2", "-D__real_malloc=malloc", "-D__real_free=free", "-c", os.path.join(CSIM, "simrt.c"), "-o", o])
            objs.append(o)
            o = os.path.join(tmp, "simnp.o")
            _run(base + ["-O2", "-c", os.path.join(CSIM, "simnp.c"), "-o", o] + inc)
            objs.append(o)
            so = os.path.join(tmp, "ctrans" + EXT)
            _run(["gcc", "-shared", "-o", so] + objs + ["-lm", "-Wl,-Bsymbolic", "-Wl,-z,now"])
            os.makedirs(outdir, exist_ok=True)
            os.replace(so, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return out


def histogram_sim():
    """The histogram extension from the current .pyx, against the access/allocator/GIL runtime -> path of the shared object."""
    pyx = os.path.join(REPO, "skbeam/core/accumulators/histogram.pyx")
    rts = [os.path.join(CSIM, f) for f in ("simrt.c", "simrt.h", "simnp.c", "gilrt.c")]
    key = _sha(pyx, *rts, extra=sys.version + "v2")
    with _Lock():
        outdir = os.path.join(CACHE, "histogram-" + key)
        out = os.path.join(outdir, "histogram" + EXT)
        if os.path.exists(out):
            return out
        os.makedirs(outdir, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=CACHE)
        try:
            pkg = os.path.join(tmp, "skbeam", "core", "accumulators")
            os.makedirs(pkg)
            for d in ("skbeam", "skbeam/core", "skbeam/core/accumulators"):
                open(os.path.join(tmp, d, "__init__.py"), "w").close()
            shutil.copyfile(pyx, os.path.join(pkg, "histogram.pyx"))
            _run([sys.executable, "-m", "cython", "-3", "skbeam/core/accumulators/histogram.pyx"], cwd=tmp)
            base = ["gcc", "-fPIC", "-g0", "-DNDEBUG", "-fwrapv", "-fno-strict-overflow", "-w"]
            inc = _includes()
            o = os.path.join(tmp, "histogram.o")
            _run(base + ["-O0", "-fopenmp", "-fsanitize=thread", "-fno-builtin-malloc", "-c", os.path.join(pkg, "histogram.c"), "-o", o] + inc)
            args = []
            for w in ["malloc", "calloc", "realloc", "free", "PyEval_SaveThread", "PyEval_RestoreThread", "PyGILState_Ensure", "PyGILState_Release"]:
                args += ["--redefine-sym", "%s=__wrap_%s" % (w, w)]
            _run(["objcopy"] + args + [o])
            objs = [o]
            for src, fl in (("simrt.c", ["-D__real_malloc=malloc", "-D__real_free=free", "-DSIM_GIL"]), ("simnp.c", []), ("gilrt.c", [])):
                r = os.path.join(tmp, src + ".o")
                _run(base + ["-O2"] + fl + ["-c", os.path.join(CSIM, src), "-o", r] + inc)
                objs.append(r)
            so = os.path.join(tmp, "histogram" + EXT)
            _run(["gcc", "-shared", "-o", so] + objs + ["-lm", "-Wl,-Bsymbolic", "-Wl,-z,now"])
            os.replace(so, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return out


def ctrans_plain():
    """ctrans.c as one thread runs it, without instrumentation -> path of the shared object."""
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c"))) + sorted(glob.glob(os.path.join(REPO, "src", "*.h")))
    key = _sha(*srcs, extra=sys.version + "v1")
    with _Lock():
        outdir = os.path.join(CACHE, "ctransplain-" + key)
        out = os.path.join(outdir, "ctrans" + EXT)
        if not os.path.exists(out):
            os.makedirs(outdir, exist_ok=True)
            _run(["gcc", "-shared", "-fPIC", "-O1", "-DNDEBUG", "-fwrapv", "-w", "-o", out + ".tmp"] + [x for x in srcs if x.endswith(".c")] + _includes() + ["-lm"])
            os.replace(out + ".tmp", out)
        return out


def fsshim():
    src = os.path.join(CSIM, "fsshim.c")
    key = _sha(src, extra="v1")
    with _Lock():
        out = os.path.join(CACHE, "fsshim-%s.so" % key)
        if not os.path.exists(out):
            _run(["gcc", "-shared", "-fPIC", "-O2", "-o", out + ".tmp", src, "-ldl"])
            os.replace(out + ".tmp", out)
        return out


def load_ext(name, path):
    """Load the extension at `path` as module `name`."""
    import importlib.machinery
    import importlib.util

    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    loader.exec_module(mod)
    parent, _, child = name.rpartition(".")
    if parent:
        import importlib

        setattr(importlib.import_module(parent), child, mod)
    return mod
