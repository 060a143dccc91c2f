"""Field data loaded from a file."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case lets a run load generated values of a field, given at generated times, from a file. It is non-trivial if the values differ "
        "between points and the run passes between two of the times.")
TECHNIQUE = ("property-based testing of generated data files against linear interpolation in numpy, and against the same values given by a "
             "boundary condition")
LEVEL_NOTE = ("Random bodies of up to 60 points in 1 to 3 blocks, 2 to 7 times in the file, up to 8 steps, several fields in the file, 1 to 3 "
              "processes, start times before, at and after zero.")
ASSUMPTIONS = ["the file belongs to the same mesh and the same number of processes", "the run stays within the times of the file"]
QUICK = dict(examples=1500, cap_s=20)
THOROUGH = dict(examples=30000, cap_s=1200)
FIELD = "Temperature_Change"


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 2, 3]))
    kind = draw(st.sampled_from(["any", "any", "heat", "unused"]))
    return {"np": np_, "kind": kind,
            "scenario": draw(scen.scenarios(laws=("elastic",), np_max=np_, thermal=(True,), loads=("velocity", "pull", "body"), max_steps=8,
                                            damage=(False, False, True), amps=(1e-3, 1e-2))),
            "times": draw(st.integers(2, 7)), "even": draw(st.booleans()), "start": 0.0 if kind == "heat" else draw(st.sampled_from([0.0, 0.0, 2.5, -0.5, -1.0])),
            "at": draw(st.booleans()), "frequency": draw(st.sampled_from([1, 1, 2])),
            "others": draw(st.lists(st.sampled_from(["Displacement", "Temperature", "Velocity"]), max_size=2, unique=True)), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    np_, N, K = case["np"], case["scenario"]["steps"], case["times"]
    r = gen.rng(case["seed"], 11)
    dt = s.tf / (N + 0.5)
    t0 = case["start"] * (dt if case["start"] != -1.0 else 1.0)
    tf = t0 + (N + 0.25) * dt
    if abs(t0) > 1e9 * dt:
        return Discard("steps lost in the digits of the time")
    # times of the file: they enclose the run, and may coincide with its start
    lo = t0 if case["at"] else t0 - r.uniform(0.1, 2) * dt
    hi = tf + r.uniform(0.1, 2) * dt
    inner = np.linspace(lo, hi, K)[1:-1] if case["even"] else np.sort(r.uniform(lo, hi, K - 2))
    if np.any(np.diff(np.concatenate([[lo], inner, [hi]])) < 1e-3 * dt):
        return Discard("times too close")
    times = np.concatenate([[lo], inner, [hi]])
    g = 20 / (N * dt) * (1 + 0.5 * np.sin(2 * s.x[:, 0] / s.h))
    heat = [l for l in s.loads if l[0] == "Prescribed Temperature"]
    name = "Loaded_Field" if case["kind"] == "unused" else FIELD
    if case["kind"] == "heat":
        data = times[:, None] * g
    else:
        data = r.uniform(-10, 10, (K, s.n)) * (20 if r.random() < 0.5 else 1)
    solver = {"Verbose": False, "Initial Time": float(t0), "Final Time": float(tf), "Verlet": {"Fixed dt": float(dt)}}
    first = dict(solver, **{"Final Time": float(t0 + (K - 1 + 0.25) * dt)})
    given = "t*%s*(1.0 + 0.5*sin(2.0*x/%s))" % (gen.num(20 / (N * dt)), gen.num(s.h))
    with runner.WorkDir() as wd:
        src = s.copy()
        src.damage = None
        src.loads = [(heat[0][0], heat[0][1], heat[0][2], given)]
        p, f = scen.render(src, outputs=[FIELD] + case["others"], solver=first, outname="data")
        runner.simulate(p, f, np_, points=s.n, steps=K, outname="data", directory=wd)
        for path in exo.files(wd, "data", np_):
            exo.overwrite(path, times, FIELD, name, data)
        run = s.copy()
        run.loads = [l for l in s.loads if l not in heat]
        out = s.outputs + [name]
        p, f = scen.render(run, outputs=out, solver=solver, frequency=case["frequency"],
                           extra={"Data Loader": {"File Name": "data.e", "Field Name": name}})
        a = runner.simulate(p, f, np_, points=s.n, directory=wd)
        if case["kind"] == "heat":
            run.loads = run.loads + src.loads
        if case["kind"] != "any":
            p, f = scen.render(run, outputs=s.outputs + ([name] if case["kind"] == "heat" else []), solver=solver, frequency=case["frequency"], outname="other")
            b = runner.simulate(p, f, np_, points=s.n, directory=wd, outname="other")
    want = np.array([[np.interp(t, times, data[:, i]) for i in range(s.n)] for t in a.times])
    got = a.nodal[name]
    tol = 1e-9 + 2e-15 * max(abs(t0), abs(tf)) / np.diff(times).min()
    bad = ~(np.abs(got - want) <= tol * np.abs(data).max())
    if bad.any():
        t, i = np.argwhere(bad)[0]
        return Bad("%s of point %d at time %r is %r; the file gives %r" % (name, i + 1, float(a.times[t]), float(got[t, i]), float(want[t, i])))
    if case["kind"] != "any":
        if case["kind"] == "unused":
            del a.nodal[name]
        msg = scen.compare(a, b, floors=dict(scen.floors(s), **{FIELD: tol * np.abs(data).max()}), rtol=1e-6)
        if msg:
            return Bad("values from the file and %s: %s" % ("the same values as boundary condition" if case["kind"] == "heat" else "none at all", msg))
    between = any(np.abs(t - times).min() > 1e-6 * dt for t in a.times)
    return Ok(case_key(case) if between and s.n > 1 else None,
              scen.tags(s) + ["np=%d" % np_, "data " + case["kind"], "start %s" % ("zero" if t0 == 0 else "negative" if t0 < 0 else "positive")])
