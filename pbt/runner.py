"""Runs Peridigm on a deck inside a scratch directory."""
import os
import shutil
import signal
import subprocess
import tempfile

from . import build, deck

SCRATCH = None
BDIR = {}
AT_END = []     # called before the scratch directory goes away


def scratch_root():
    global SCRATCH
    if SCRATCH is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        SCRATCH = tempfile.mkdtemp(prefix="verif.", dir=base)
    return SCRATCH


def remove_scratch():
    global SCRATCH
    for f in AT_END:
        f()
    if SCRATCH and os.path.basename(SCRATCH).startswith("verif."):
        shutil.rmtree(SCRATCH, ignore_errors=True)
    SCRATCH = None


class Run:
    def __init__(self, directory, code, out, np_, timeout):
        self.dir, self.code, self.out, self.np, self.timeout = directory, code, out, np_, timeout


class WorkDir:
    """A scratch directory that is removed when the case is over."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c", dir=scratch_root())
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def execute(cmd, cwd, np_=1, timeout=60, env_extra=None):
    env = build.environment()
    tmp = tempfile.mkdtemp(prefix="t", dir=scratch_root())
    env["TMPDIR"] = tmp
    env["OMPI_MCA_btl_vader_backing_directory"] = tmp
    env["OMPI_MCA_orte_tmpdir_base"] = tmp
    if env_extra:
        env.update(env_extra)
    if np_ > 1:
        cmd = ["mpiexec", "--bind-to", "none", "-np", str(np_)] + cmd
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    timed_out = False
    try:
        out = p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out = p.communicate()[0]
    shutil.rmtree(tmp, ignore_errors=True)
    return p.returncode, out.decode(errors="replace"), timed_out


def peridigm(params, files, np_=1, fmt="xml", directory=None, variant="rel", timeout=60, env_extra=None,
             deckname="deck"):
    """Writes deck and data files to the directory, runs it, and returns a Run."""
    for name, text in files.items():
        mode = "wb" if isinstance(text, bytes) else "w"
        with open(os.path.join(directory, name), mode) as f:
            f.write(text)
    if fmt == "raw":
        path = deckname
    else:
        path = deckname + "." + fmt
        with open(os.path.join(directory, path), "w") as f:
            f.write(deck.to_xml(params) if fmt == "xml" else deck.to_yaml(params))
    exe = os.path.join(BDIR[variant], "src", "Peridigm")
    code, out, to = execute([exe, path], directory, np_, timeout, env_extra)
    return Run(directory, code, out, np_, to)


class Broken(Exception):
    """The code under test did something no correct version would do; the engine turns it into a failure."""

    out = ""


def simulate(params, files, np_=1, points=None, steps=None, outname="out", fmt="xml", variant="rel", timeout=60,
             directory=None, env_extra=None):
    """Runs a valid deck and reads its output; every point must be there exactly once."""
    from . import exo
    import numpy as np
    if directory is None:
        with WorkDir() as wd:
            return simulate(params, files, np_, points, steps, outname, fmt, variant, timeout, wd, env_extra)
    r = peridigm(params, files, np_, fmt, directory, variant, timeout, env_extra)
    if r.timeout:
        raise Broken("a valid input did not finish within %d s" % timeout)
    if r.code != 0:
        e = Broken("a valid input ended with status %s\n%s" % (r.code, r.out[-1500:]))
        e.out = r.out
        raise e
    try:
        o = exo.read(directory, outname, np_)
    except Exception as e:
        raise Broken("the output cannot be read: %r" % e)
    o.stdout = r.out
    if not o.same_times:
        raise Broken("output files of the processes hold different times")
    if points is not None:
        want = np.arange(1, points + 1)
        if not np.array_equal(o.ids, want) or not np.array_equal(o.elem_ids, want):
            raise Broken("the output does not hold every one of the %d points once" % points)
    if steps is not None and o.nt != steps:
        raise Broken("the output holds %d steps instead of %d" % (o.nt, steps))
    return o
