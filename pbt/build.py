"""Builds Peridigm and the harnesses from the current contents of the repository.

The tree is mirrored by content into .build/src, so what is compiled depends on
what the files contain and never on their time stamps.
"""
import fcntl
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(ROOT, "src")

VARIANTS = {
    "rel": "-O1 -DNDEBUG",
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,bounds,integer-divide-by-zero "
            "-ftrivial-auto-var-init=pattern -DNDEBUG",
}


class BuildError(Exception):
    pass


def environment():
    """Environment of every program that is started: Open MPI on shared memory only."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "ORTE_"))}
    env.update(
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        LANG="C.UTF-8", LC_ALL="C.UTF-8",
        OMPI_CC="gcc", OMPI_CXX="g++",
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_plm="isolated", OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader",
        OMPI_MCA_btl_vader_single_copy_mechanism="none",
        OMPI_MCA_rmaps_base_oversubscribe="1",
        OMPI_MCA_hwloc_base_binding_policy="none",
        OMPI_MCA_mpi_yield_when_idle="1",
        OMPI_MCA_ess_singleton_isolated="1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
    )
    env.setdefault("HOME", "/root")
    return env


def _run(cmd, log):
    with open(log, "ab") as f:
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=environment()).returncode


def _newest(path):
    newest = 0.0
    for name in (".ninja_log", "build.ninja"):
        p = os.path.join(path, name)
        if os.path.exists(p):
            newest = max(newest, os.path.getmtime(p))
    return newest


def build(targets=("src/Peridigm",), variant="rel"):
    """Brings the targets up to date and returns the build directory."""
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        bdir = os.path.join(ROOT, variant)
        log = os.path.join(ROOT, "build-%s.log" % variant)
        open(log, "w").close()
        if _newest(bdir) > time.time():
            shutil.rmtree(bdir)      # time stamps from the future: start again
        os.makedirs(SRC, exist_ok=True)
        rc = _run(["rsync", "-rlc", "--delete", "--exclude=/.git", "--exclude=/_build",
                   "--exclude=/_build.log", "--exclude=__pycache__", REPO + "/", SRC + "/"], log)
        if rc:
            raise BuildError("cannot mirror the repository (see %s)" % log)
        for attempt in (1, 2):
            rc = _run(["cmake", "-S", SRC, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
                       "-DCMAKE_CXX_COMPILER=mpicxx", "-DCMAKE_C_COMPILER=mpicc", "-DHAVE_YAML=ON",
                       "-DCMAKE_CXX_FLAGS=-DUSE_YAML",
                       "-DCMAKE_CXX_FLAGS_RELEASE=" + VARIANTS[variant],
                       "-DCMAKE_CXX_STANDARD_LIBRARIES=-lexoIIv2c -lnetcdf",
                       "-DVERIF_HARNESS_DIR=" + os.path.join(VERIF, "harness"),
                       "-DCMAKE_PROJECT_Peridigm_INCLUDE=" + os.path.join(VERIF, "cmake", "verif.cmake")], log)
            if rc == 0:
                rc = _run(["ninja", "-C", bdir] + list(targets), log)
                if rc == 0:
                    return bdir
            if attempt == 1 and os.path.exists(bdir):
                shutil.rmtree(bdir)   # a stale build folder must not be the reason
        with open(log, errors="replace") as f:
            sys.stderr.write(f.read()[-6000:])
        raise BuildError("build failed (see %s)" % log)
