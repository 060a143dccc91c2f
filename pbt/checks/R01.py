"""A restarted run continues as if it had never stopped."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case runs one random simulation once without a stop and once with one or two stops, continued from the restart files, and "
        "compares every output value of the later steps. It is non-trivial if the continued part has a step.")
TECHNIQUE = "metamorphic property-based testing: a generated simulation stopped and continued at random steps against the same without a stop"
LEVEL_NOTE = ("Random bodies of up to 64 points, 1 to 3 blocks, all material families with history, damage, contact, temperatures and time "
              "dependent loads; explicit and quasi-static solvers; up to 8 steps with one or two stops; 1 to 3 processes; restarts with "
              "a wrong time, a different body or a missing file.")
ASSUMPTIONS = ["the continued run has the same number of processes", "differences up to 1e-7 of the largest value of a field are rounding"]
QUICK = dict(examples=1500, cap_s=22)
THOROUGH = dict(examples=30000, cap_s=1800)


FIXED = [{"np": 1, "cuts": [1], "joint": True, "t0": 3, "decimal": False, "wrong": None,
          "scenario": {"law": "hypo elastic", "cloud": {"kind": "lattice", "seed": 283, "scale": 1.0, "offset": 0.0, "dims": [4, 4, 3], "jitter": 0.1},
                       "nblocks": 1, "how": "random", "factor": 1.9, "ratio": 1.0, "influence": "One", "mixed": False, "damage": True,
                       "contact": False, "solver": "verlet", "steps": 3, "amp": 0.01, "load": "pull", "level": 0.2, "thermal": False,
                       "moduli": 482}}]


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 2, 3]))
    fam = draw(st.sampled_from(["state", "state", "contact", "corr", "ba", "qs", "qs"]))
    steps = draw(st.integers(2, 8 if fam not in ("corr", "ba") else 5))
    if fam == "state":
        s = draw(scen.scenarios(np_max=np_, thermal=(False, False, True), ratios=(1.0, 1.4), mixed=(False, False, True), steps=steps,
                                influences=("One", "One", "Gaussian"), loads=("velocity", "pull", "body", "displaced")))
    elif fam == "qs":
        s = draw(scen.scenarios(laws=("elastic", "plastic", "bond", "hardening"), np_max=np_, loads=("pull",), solvers=("qs",), damage=(False,),
                                kinds=("lattice",), amps=(1e-3,), steps=min(steps, 4), nblocks=(1, 2), min_points=8))
    elif fam == "contact":
        s = draw(scen.scenarios(laws=("elastic", "plastic", "bond"), np_max=np_, contact=(True,), loads=("velocity", "body"), steps=steps,
                                kinds=("lattice", "random"), amps=(0.1, 0.3)))
    else:
        s = draw(scen.scenarios(laws=tuple(scen.CORR if fam == "corr" else scen.BA), np_max=np_, steps=steps))
    N = s["steps"]
    cut = sorted(draw(st.lists(st.integers(1, N - 1), min_size=1, max_size=2, unique=True)))
    return {"np": np_, "scenario": s, "cuts": cut, "joint": draw(st.booleans()), "t0": draw(st.sampled_from([0, 0, 3])), "decimal": draw(st.booleans()),
            "wrong": draw(st.sampled_from([None, None, None, None, "time", "body", "file"]))}


def strategy(tier):
    return cases(tier)


def short(v, bits=20):
    """The number with few binary digits, so that its multiples are exact."""
    m, e = np.frexp(v)
    return float(np.ldexp(np.floor(m * 2 ** bits) / 2 ** bits, e))


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    N, np_, n = s.steps, case["np"], s.n
    if s.solver == "qs":
        s.force_scale = np.mean(s.K) * s.amp / s.h * s.h ** 3
        s.loads = [l for l in s.loads if l[0] == "Prescribed Displacement"]
        # the equilibrium must be unique
        if not s.loads or min(case["scenario"]["cloud"]["dims"]) < 2 or case["scenario"]["factor"] < 2:
            return Discard("degenerate body")
    ends = [0] + case["cuts"] + [N]
    first = case["t0"] if s.solver == "verlet" and case["scenario"]["load"] != "pull" else 0
    dt = s.dt
    s.dt = float("%.2e" % dt)
    at = [float("%.12g" % ((first + k) * s.dt)) for k in range(N + 1)]
    if not case["decimal"] or s.solver == "verlet" and any(np.floor((at[j] - at[i]) / s.dt) != j - i for i in ends for j in ends if j > i):
        s.dt = short(dt)
        at = [(first + k) * s.dt for k in range(N + 1)]
    uneven = s.solver == "qs" and case["decimal"]
    if uneven:
        at = [0.0] + [float("%.12g" % v) for v in 0.001 * np.cumsum(gen.rng(case["scenario"]["moduli"], 9).integers(1, 10, N))]
        s.loads = [(a, b, c, e.replace("*t", "*t*%s" % gen.num(N * s.dt / at[-1]))) for a, b, c, e in s.loads]

    def solver(i, j):
        s.t0, s.tf, s.steps = at[i], at[j], j - i
        d = scen.solver_list(s)
        d["Initial Time"], d["Final Time"] = float(s.t0), float(s.tf)
        if uneven:
            d["QuasiStatic"].pop("Number of Load Steps")
            d["QuasiStatic"]["Time Steps"] = " ".join("%.12g" % v for v in at[i:j + 1])
        return d

    def deck(parts, name, restart):
        p, f = scen.render(s, outname=name, solver=parts[0])
        for k, d in enumerate(parts[1:]):
            p["Solver%d" % (k + 1)] = d
        if restart:
            p["Restart"] = True
        return p, f

    try:
        whole = runner.simulate(*deck([solver(0, N)], "out", False), np_, points=n)
    except runner.Broken as e:
        if "Too many iterations in the plastic radial return" in e.out:
            return Discard("reported failure of the material law")
        raise
    if s.contact and s.contact["frequency"] > 1 and max(np.abs(whole.nodal["Displacement" + c]).max() for c in "XYZ") > 0.25 * s.h:
        return Discard("contact depends on the step of the search")
    with runner.WorkDir() as wd:
        parts = list(zip(ends[:-1], ends[1:]))
        # a further solver of the same input starts with an evaluation that is neutral only without rate dependence
        plain = s.law in ("elastic", "bond", "plastic", "linear", "pals") and not (s.contact and s.contact["friction"])
        runs = [parts[:2], parts[2:]] if case["joint"] and plain and len(parts) > 2 else [[q] for q in parts]
        for k, run in enumerate(runs):
            p, f = deck([solver(i, j) for i, j in run], "part%d" % k, True)
            if k and case["wrong"]:
                # a continuation that does not fit must be refused
                q, g = p, dict(f)
                if case["wrong"] == "time":
                    q = dict(p, Solver=dict(p["Solver"], **{"Initial Time": p["Solver"]["Initial Time"] + s.dt / 2}))
                elif case["wrong"] == "file":
                    # the last folder is the one that is read
                    last = sorted(d for d in os.listdir(wd) if d.startswith("restart-"))[-1]
                    vectors = sorted(f for f in os.listdir(os.path.join(wd, last)) if f.endswith(".mat"))
                    if not vectors:
                        return Discard("no vector files")
                    os.unlink(os.path.join(wd, last, vectors[case["scenario"]["moduli"] % len(vectors)]))
                else:
                    g["mesh.txt"] = g["mesh.txt"].rstrip("\n") + "\n%.17g %.17g %.17g 1 %.17g\n" % (tuple(s.x.max(0) + s.h * 0.9) + (s.vol[0],))
                r = runner.peridigm(q, g, np_, "xml", wd, timeout=30)
                if r.timeout or r.code == 0:
                    return Bad("a continuation with %s %s" % ({"time": "another initial time", "body": "one point more", "file": "a missing restart file"}[case["wrong"]],
                                                              "does not end within 30 s" if r.timeout else "is accepted"))
                return Ok(case_key(case), ["refused " + case["wrong"], "np=%d" % np_])
            o = runner.simulate(p, f, np_, points=n, outname="part%d" % k, directory=wd)
        first = run[0][0]
    # later states
    want = whole.times[first + 1:]
    later = o.times[1:] if len(run) == 1 else None
    if later is None or len(later) != len(want) or not np.allclose(later, want, rtol=1e-9, atol=0):
        return Bad("continued times are %s, expected are %s" % (o.times.tolist(), want.tolist()))
    for r_, lo in ((whole, first + 1), (o, 1)):
        for d in (r_.nodal, r_.elem, r_.glob):
            for k in d:
                d[k] = d[k][lo:]
        r_.times = want
        r_.nt = len(want)
    s.steps = N
    rtol = 1e-7 if s.solver == "verlet" else 1e-5
    fl = scen.floors(s)
    if s.solver == "qs":
        fl = {"Force_Density": 1e-5 * s.force_scale / s.vol.min(), "Displacement": 1e-6 * s.amp * s.h, "Velocity": 1e-5 * s.amp * s.h / s.dt,
              "Dilatation": 1e-6 * s.amp, "Lambda": 1e-5}
    msg = scen.compare(whole, o, floors=fl, rtol=rtol)
    if msg:
        return Bad("continued from step %d: %s" % (first, msg))
    return Ok(case_key(case), scen.tags(s) + ["np=%d" % np_, "stops %d" % len(case["cuts"])])
