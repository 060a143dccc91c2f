"""Drives a check: generation in several worker processes, shrinking, replay, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import build, runner

VERIF = build.VERIF


class Ok:
    """The property held. key identifies the case if it was non-trivial, else None."""

    def __init__(self, key=None, tags=()):
        self.key, self.tags = key, tuple(tags)


class Discard:
    def __init__(self, why):
        self.why = why


class Bad:
    """The property is broken. finding names a listed known finding if it matches one."""

    def __init__(self, message, finding=None):
        self.message, self.finding = message, finding


class _Violation(Exception):
    pass


class _Stop(BaseException):
    pass


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def load(pid):
    return importlib.import_module("pbt.checks." + pid)


def known_findings(pid):
    """Listed findings of a property: {key: description}."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(" ", 2)[2].strip()
                    key, _, text = rest.partition(" ")
                    out[key.split("=", 1)[1]] = text
    return out


def judge(mod, case, listed):
    try:
        o = mod.evaluate(case)
    except runner.Broken as e:
        o = Bad(str(e))
    except (OSError, MemoryError):
        raise
    except Exception:
        # the checks interpret any output a correct program can write
        o = Bad("the output could not be interpreted\n" + traceback.format_exc())
    if isinstance(o, Bad) and o.finding in listed and o.finding is not None:
        return o.finding, o
    return None, o


def _worker(pid, tier, seed, worker, examples, deadline, shrink_s, listed, stop, q):
    import random

    import numpy as np
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    random.seed(seed * 1000 + worker)
    np.random.seed((seed * 1000 + worker) % 2**32)
    np.seterr(all="ignore")
    runner.SCRATCH = None
    mod = load(pid)
    st = {"evaluations": 0, "discards": {}, "tags": {}, "keys": set(), "samples": [], "known": {}, "failing": None,
          "error": None, "shrinks": 0}
    state = {"first_fail": None}

    def body(case):
        now = time.time()
        if state["first_fail"] is None:
            if stop.is_set() or now > deadline:
                raise _Stop()
        elif now > state["first_fail"] + shrink_s:
            raise _Stop()
        finding, o = judge(mod, case, listed)
        if state["first_fail"] is None:
            st["evaluations"] += 1
        else:
            st["shrinks"] += 1
        if isinstance(o, Discard):
            st["discards"][o.why] = st["discards"].get(o.why, 0) + 1
            return
        if finding is not None:
            st["known"][finding] = st["known"].get(finding, 0) + 1
            return
        if isinstance(o, Bad):
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
                stop.set()
            size = len(json.dumps(case))
            if st["failing"] is None or size <= st["failing"][0]:
                st["failing"] = (size, case, o.message)
            raise _Violation(o.message)
        if state["first_fail"] is None:
            for t in o.tags:
                st["tags"][t] = st["tags"].get(t, 0) + 1
            if o.key is not None:
                st["keys"].add(o.key)
                if len(st["samples"]) < 2:
                    st["samples"].append(case)

    try:
        test = given(mod.strategy(tier))(body)
        test = settings(max_examples=examples, database=None, deadline=None,
                        phases=[Phase.generate, Phase.shrink], print_blob=False,
                        report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck))(test)
        test = hseed(seed * 1000 + worker)(test)
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        test()
    except _Violation:
        pass
    except _Stop:
        pass
    except BaseException:  # anything else is an error of the check
        if st["failing"] is None:
            st["error"] = traceback.format_exc()
            stop.set()
    finally:
        runner.remove_scratch()
    st["keys"] = list(st["keys"])
    q.put(st)


def write_evidence(pid, mod, tier, seed, wall, st, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "evaluations": st["evaluations"],
        "distinct_nontrivial": len(st["keys"]),
        "rule": mod.RULE,
        "samples": st["samples"][:3],
        "discarded": st["discards"],
        "features": st["tags"],
        "known_findings_met": st["known"],
    }
    cov.update(st.get("extra", {}))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(wall, 2), "violations": violations,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", []))}
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


def report(pid, case, message):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, case_key(case)))
    with open(path, "w") as f:
        json.dump({"property": pid, "message": message, "case": case}, f, indent=1)
    print(message)
    print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))


def prepare(mod):
    for variant, targets in getattr(mod, "BUILD", {"rel": ["src/Peridigm"]}).items():
        runner.BDIR[variant] = build.build(targets, variant)


def replay(pid, path):
    mod = load(pid)
    prepare(mod)
    with open(path) as f:
        case = json.load(f)["case"]
    try:
        finding, o = judge(mod, case, known_findings(pid))
    finally:
        runner.remove_scratch()
    if isinstance(o, Bad):
        print(o.message)
        if finding is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, finding))
            return 0
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("held" if isinstance(o, Ok) else "discarded: " + o.why)
    return 0


def merge(parts):
    st = {"evaluations": 0, "discards": {}, "tags": {}, "keys": set(), "samples": [], "known": {}}
    for p in parts:
        st["evaluations"] += p["evaluations"]
        st["keys"].update(p["keys"])
        for field in ("discards", "tags", "known"):
            for k, v in p[field].items():
                st[field][k] = st[field].get(k, 0) + v
    for i in range(2):
        for p in parts:
            if i < len(p["samples"]):
                st["samples"].append(p["samples"][i])
    return st


def confirm(mod, failing, listed, unconfirmed):
    """Replays a failure; only one that repeats counts."""
    import numpy as np
    np.seterr(all="ignore")
    _, case, message = failing

    def again(n):
        out = []
        for _ in range(n):
            finding, o = judge(mod, case, listed)
            if isinstance(o, Bad) and finding is None:
                out.append(o)
        return out
    bad = again(3)
    if len(bad) < 3:
        # a fault that depends on memory contents or timing may fail some of the time
        bad += again(6)
        if len(bad) < 4:
            unconfirmed.append({"case": case, "message": message[:500], "failed_replays": len(bad)})
            return None
    return case, bad[0].message


def run(pid, tier, seed):
    t0 = time.time()
    mod = load(pid)
    try:
        prepare(mod)
    except build.BuildError as e:
        print("error: %s" % e, file=sys.stderr)
        return 2
    t1 = time.time()
    cfg = dict(examples=1000, cap_s=120, shrink_s=60)
    cfg.update(mod.QUICK if tier == "quick" else mod.THOROUGH)
    workers = cfg.get("workers", os.cpu_count() or 8)
    listed = known_findings(pid)
    runner.scratch_root()
    ctx = mp.get_context("fork")
    stop, q = ctx.Event(), ctx.Queue()
    per = max(1, cfg["examples"] // workers)
    deadline = time.time() + cfg["cap_s"]
    # seeds of fixed cases that are always evaluated first
    parts = []
    fixed = list(getattr(mod, "FIXED", []))
    failing, error = None, None
    if fixed:
        st = {"evaluations": 0, "discards": {}, "tags": {}, "keys": set(), "samples": [], "known": {}}
        with ctx.Pool(workers) as pool:
            results = pool.starmap(_fixed, [(pid, c, listed) for c in fixed])
        for c, (finding, kind, a, b) in zip(fixed, results):
            st["evaluations"] += 1
            if kind == "error":
                error = a
            elif finding is not None:
                st["known"][finding] = st["known"].get(finding, 0) + 1
            elif kind == "bad":
                failing = failing or (0, c, a)
            elif kind == "discard":
                st["discards"][a] = st["discards"].get(a, 0) + 1
            else:
                for t in b:
                    st["tags"][t] = st["tags"].get(t, 0) + 1
                if a is not None:
                    st["keys"].add(a)
        parts.append(st)
    unconfirmed = []
    violation = None
    if failing is not None:
        violation = confirm(mod, failing, listed, unconfirmed)
    rounds = 0
    while violation is None and error is None and rounds < 4:
        stop.clear()
        base = seed if rounds == 0 else seed + 7919 * rounds
        procs = [ctx.Process(target=_worker, args=(pid, tier, base, w, per, deadline, cfg["shrink_s"], listed, stop, q))
                 for w in range(workers)]
        for p in procs:
            p.start()
        got = []
        while len(got) < len(procs):
            try:
                got.append(q.get(timeout=5))
            except Exception:
                if not any(p.is_alive() for p in procs) and q.empty():
                    break
        for p in procs:
            p.join(10)
        if len(got) < len(procs):
            error = "a worker process died"
        parts += got
        failing = None
        for p in got:
            if p["failing"] and (failing is None or p["failing"][0] < failing[0]):
                failing = p["failing"]
            if p["error"]:
                error = p["error"]
        if failing is None:
            break
        violation = confirm(mod, failing, listed, unconfirmed)
        if violation is not None:
            error = None
        rounds += 1
        if time.time() > deadline:
            break
    st = merge(parts)
    violations = 0
    rc = 0
    if violation is not None:
        violations, rc = 1, 1
        report(pid, *violation)
    elif hasattr(mod, "finish") and error is None:
        problem = mod.finish(st, tier)
        if problem:
            error = problem
    runner.remove_scratch()
    if hasattr(mod, "extra"):
        st["extra"] = mod.extra(st)
    if unconfirmed:
        st.setdefault("extra", {})["not_repeated"] = unconfirmed
    write_evidence(pid, mod, tier, seed, time.time() - t0, st, violations)
    for k, text in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %s discarded, build %.0fs, run %.0fs" % (
        pid, tier, seed, st["evaluations"], len(st["keys"]), sum(st["discards"].values()), t1 - t0, time.time() - t1))
    if rc:
        return rc
    if error:
        print("error: %s" % error, file=sys.stderr)
        return 2
    return 0


def _fixed(pid, case, listed):
    try:
        runner.SCRATCH = None
        mod = load(pid)
        finding, o = judge(mod, case, listed)
        runner.remove_scratch()
        if isinstance(o, Bad):
            return finding, "bad", o.message, None
        if isinstance(o, Discard):
            return None, "discard", o.why, None
        return None, "ok", o.key, list(o.tags)
    except Exception:
        return None, "error", traceback.format_exc(), None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.property, a.replay)
    return run(a.property, a.tier, a.seed)
