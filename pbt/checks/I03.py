"""Valid runs stay inside their memory and do not depend on memory nobody wrote."""
import glob
import importlib
import os
import shutil

import numpy as np
from hypothesis import strategies as st
from scipy.io import netcdf_file

from .. import runner, server
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case is a case of another check, run by an instrumented build and, if it starts from an empty directory, also by the plain build "
        "with different contents of fresh memory. It is non-trivial if at least one program ran to its end.")
TECHNIQUE = ("property-based testing with a memory oracle: the generated inputs of the other checks on a build with AddressSanitizer, array "
             "bounds and integer division checks; results must not depend on what fresh heap and stack memory contains")
LEVEL_NOTE = "The inputs of the other checks, at a tenth of their number; leaks are not judged."
ASSUMPTIONS = ["memory errors inside the third-party libraries that no checked function of the C library touches are not seen",
               "the plain and the instrumented build round alike up to 1e-7 of the largest value of a variable"]
QUICK = dict(examples=1200, cap_s=25)
THOROUGH = dict(examples=40000, cap_s=2400)
DECKS = ["N01", "N02", "D01", "D02", "P01", "P02", "M01", "M02", "M03", "M04", "M05", "M07", "F01", "C01", "B01", "T01", "T02", "T03", "T04",
         "R01", "O01", "O02", "I01"]
HARNESSES = ["N03", "M06", "G01", "S01"]
BUILD = {"rel": ["src/Peridigm"], "asan": ["src/Peridigm"]}
REPORTS = ("ERROR: AddressSanitizer", "runtime error:", "AddressSanitizer:DEADLYSIGNAL", "AddressSanitizer: ")
OPTIONS = {"ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:detect_container_overflow=0:"
                           "detect_stack_use_after_return=1:malloc_fill_byte=190:max_malloc_fill_size=1000000000:allocator_may_return_null=0"}


def module(name):
    return importlib.import_module("pbt.checks." + name)


for _name in HARNESSES:
    for _variant, _targets in module(_name).BUILD.items():
        BUILD["rel"] = sorted(set(BUILD["rel"]) | set(_targets))
        BUILD["asan"] = sorted(set(BUILD["asan"]) | set(_targets))


@st.composite
def cases(draw, tier):
    name = draw(st.sampled_from(DECKS * 2 + HARNESSES))
    return {"check": name, "case": draw(module(name).strategy("quick"))}


def strategy(tier):
    return cases(tier)


def report(text):
    for mark in REPORTS:
        if mark in text:
            k = max(0, text.index(mark) - 100)
            return text[k:k + 2500]
    return None


def tables(directory):
    """The variables of every output file."""
    out = {}
    for path in sorted(glob.glob(os.path.join(directory, "*.e")) + glob.glob(os.path.join(directory, "*.e.*"))):
        with netcdf_file(path, mmap=False) as f:
            out[os.path.basename(path)] = {k: np.array(v.data) for k, v in f.variables.items() if v.data.dtype.kind in "fi"}
    return out


def differ(a, b):
    if set(a) != set(b):
        return "different output files: %s and %s" % (sorted(a), sorted(b))
    for name in a:
        if set(a[name]) != set(b[name]):
            return "%s holds different variables" % name
        for k, u in a[name].items():
            v = b[name][k]
            if u.shape != v.shape:
                return "%s: %s has different sizes" % (name, k)
            if np.array_equal(u, v, equal_nan=u.dtype.kind == "f"):
                continue
            same = np.isfinite(u) & np.isfinite(v)
            if not np.array_equal(np.isfinite(u), np.isfinite(v)):
                return "%s: %s is not a number in one of the runs" % (name, k)
            size = max(np.abs(u[same]).max(initial=0), np.abs(v[same]).max(initial=0))
            gap = np.abs(u[same] - v[same]).max(initial=0)
            if gap > 1e-7 * size:
                return "%s: %s differs by %g (largest value %g)" % (name, k, gap, size)
    return None


class Watch:
    """Replaces the functions that start programs while a case is evaluated."""

    def __init__(self):
        self.found, self.runs, self.compared = None, 0, 0

    def __enter__(self):
        self.peridigm, self.ask = runner.peridigm, server.ask
        runner.peridigm, server.ask = self.run, self.request
        return self

    def __exit__(self, *a):
        runner.peridigm, server.ask = self.peridigm, self.ask

    def bad(self, text):
        self.found = self.found or text
        raise runner.Broken(text)

    def run(self, params, files, np_=1, fmt="xml", directory=None, variant="rel", timeout=60, env_extra=None, deckname="deck"):
        before = set(os.listdir(directory))
        fresh = not before or fmt == "raw" and before <= {deckname}
        env = dict(env_extra or {}, **OPTIONS)
        with runner.WorkDir() as twin:
            for k in before:
                if fresh:
                    shutil.copy(os.path.join(directory, k), twin)
            r = self.peridigm(params, files, np_, fmt, directory, "asan", 4 * timeout, env, deckname)
            text = report(r.out)
            if text:
                self.bad(text)
            if r.code in (-11, -8, -7, 139, 136, 135):
                self.bad("the program crashed: status %s\n%s" % (r.code, r.out[-1500:]))
            if r.code == 0 and not r.timeout:
                self.runs += 1
            if fresh and r.code == 0 and not r.timeout:
                env = dict(env_extra or {}, MALLOC_PERTURB_="85")
                p = self.peridigm(params, files, np_, fmt, twin, "rel", timeout, env, deckname)
                if p.code != 0 or p.timeout:
                    self.bad("the run fails with other contents of fresh memory: %s\n%s" % (p.code, p.out[-1000:]))
                text = differ(tables(directory), tables(twin))
                self.compared += 1
                if text:
                    self.bad("the results depend on the contents of fresh memory\n" + text)
        return r

    def request(self, name, text, timeout=60, variant="rel", which="", np_=1):
        try:
            answer = self.ask(name, text, 4 * timeout, "asan", which, np_)
        except runner.Broken as e:
            found = report(str(e))
            if found:
                self.bad(found)
            raise
        self.runs += 1
        return answer


def evaluate(case):
    mod = module(case["check"])
    for k, v in OPTIONS.items():
        os.environ[k] = v
    with Watch() as w:
        try:
            mod.evaluate(case["case"])
        except Exception:
            pass          # what the program computes is judged by the other check
    if w.found:
        return Bad("%s: %s" % (case["check"], w.found))
    if not w.runs:
        return Ok(None, ["check " + case["check"]])
    return Ok(case_key(case), ["check " + case["check"]] + (["compared"] if w.compared else []))
