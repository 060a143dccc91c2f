"""The same input on one and on several processes."""
import numpy as np
from hypothesis import strategies as st

from .. import runner, scen
from ..engine import Bad, Discard, Ok, case_key
from . import T02, T03, T04

RULE = ("A case runs one random simulation on one and on several processes and compares every output value. It is "
        "non-trivial if bonds cross between processes.")
TECHNIQUE = "metamorphic property-based testing: the same generated simulation on different numbers of processes"
LEVEL_NOTE = ("Random bodies of up to 64 points, 1 to 3 blocks, all material families, damage, contact, thermal strain, "
              "up to 8 steps, 2 to 4 processes; quasi-static, implicit dynamic and diffusion problems.")
ASSUMPTIONS = ["differences up to 1e-7 of the largest value of a field are rounding; with an implicit solver, up to 1e-3 come from its tolerance"]
QUICK = dict(examples=1600, cap_s=22)
THOROUGH = dict(examples=40000, cap_s=2400)
DERIVED = ["Kinetic_Energy", "Global_Kinetic_Energy", "Force", "Acceleration", "Number_Of_Neighbors",
           "Neighborhood_Volume", "Radius", "Linear_Momentum", "Global_Linear_Momentum", "Global_Angular_Momentum", "Block_Id", "Volume"]

HYPO = ("hypo elastic", "hypo plastic", "hypo hardening")


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([2, 2, 3, 4]))
    fam = draw(st.sampled_from(["state", "state", "state", "contact", "corr", "ba", "variable", "flying", "static", "newmark", "diffusion"]))
    if fam == "static":
        c = draw(T02.cases(tier, processes=(np_,)))
        c.update(adaptive=None, iterations=30, kind="absolute", tol=1e-8, amp=min(max(c["amp"], 1e-4), 1e-2), solver="qs", linear=None)
        if c["law"] not in ("elastic", "bond", "linear"):
            c.update(law="elastic")
        return {"np": np_, "family": fam, "case": c}
    if fam == "newmark":
        c = draw(T03.cases(tier, processes=(np_,)))
        c.update(tol=1e-9, amp=min(c["amp"], 1e-3))
        if c["law"] in ("plastic", "hardening"):
            c.update(law="elastic")
        return {"np": np_, "family": fam, "case": c}
    if fam == "diffusion":
        c = draw(T04.cases(tier, processes=(np_,)))
        c.update(tolerance="absolute", tol=1e-8)
        if c["held"] == "some":
            c.update(kind="heat")
        return {"np": np_, "family": fam, "case": c}
    if fam == "state":
        s = draw(scen.scenarios(np_max=np_, thermal=(False, False, True), ratios=(1.0, 1.4), mixed=(False, False, True),
                                influences=("One", "One", "Gaussian"), loads=("velocity", "pull", "body", "displaced")))
    elif fam == "contact":
        s = draw(scen.scenarios(laws=("elastic", "plastic", "bond"), np_max=np_, contact=(True,), loads=("velocity", "body"),
                                kinds=("lattice", "random"), amps=(0.1, 0.3)))
    elif fam == "variable":
        s = draw(scen.scenarios(laws=("corr elastic", "corr plastic"), np_max=np_, ratios=(1.0, 1.2), max_steps=5))
    elif fam == "flying":
        s = draw(scen.scenarios(laws=HYPO, np_max=np_, damage=(True,), max_steps=6))
        s["neglect"] = draw(st.sampled_from([0.03, 0.1, 0.3]))
    else:
        s = draw(scen.scenarios(laws=tuple(scen.CORR if fam == "corr" else scen.BA), np_max=np_, max_steps=5))
    return {"np": np_, "scenario": s, "derived": draw(st.lists(st.sampled_from(DERIVED), max_size=3, unique=True))}


def strategy(tier):
    return cases(tier)


class Capture:
    """Keeps the result of the program run while a case of another check is evaluated."""

    def __enter__(self):
        self.simulate, self.result = runner.simulate, None
        runner.simulate = self.run
        return self

    def __exit__(self, *a):
        runner.simulate = self.simulate

    def run(self, params, files, *a, **k):
        self.params, self.files = params, files
        self.result = self.simulate(params, files, *a, **k)
        return self.result


def tolerances(params):
    """Absolute tolerances of the solvers of an input."""
    for k, v in params.items():
        if k == "Absolute Tolerance":
            yield v
        elif isinstance(v, dict):
            yield from tolerances(v)


def solved(case):
    """Problems of the implicit solvers: the results agree up to the tolerance of the solve."""
    mod = {"static": T02, "newmark": T03, "diffusion": T04}[case["family"]]
    out = []
    for np_ in (1, case["np"]):
        with Capture() as c:
            try:
                r = mod.evaluate(dict(case["case"], np=np_))
            except runner.Broken:
                if out:
                    raise
                return Discard("the run on one process fails")
        if not isinstance(r, Ok) and (not out or isinstance(r, Discard)):
            return r if isinstance(r, Discard) else Discard("the run on one process breaks another property")
        if "Accepting current solution" in c.result.stdout:
            return Discard("not solved to the tolerance, as reported")
        out.append(c.result)
    a, b = out
    # what is left over when the solver stops says nothing
    small = min(float(l.split()[-1]) for l in c.files["mesh.txt"].splitlines() if l.strip() and not l.startswith("#"))
    left = 4 * max(tolerances(c.params), default=0.0) / small
    msg = scen.compare(a, b, rtol=1e-3, floors=dict.fromkeys(("Force_Density", "Flux_Divergence", "Flux_Density"), left))
    if msg:
        return Bad("1 and %d processes: %s" % (case["np"], msg))
    return Ok(case_key(case), ["np=%d" % case["np"], case["family"]])


def evaluate(case):
    if "family" in case:
        return solved(case)
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    p, f = scen.render(s, outputs=s.outputs + case["derived"])
    try:
        a = runner.simulate(p, f, 1, points=s.n)
    except runner.Broken:
        if case["scenario"].get("neglect"):
            return Discard("nothing left around a point")
        raise
    b = runner.simulate(p, f, case["np"], points=s.n)
    fl = scen.floors(s)
    fl.update({"Force": fl["Force_Density"] * s.vol.max(), "Acceleration": fl["Force_Density"] / s.rho})
    v = max(np.abs(a.nodal["Velocity" + c]).max() for c in "XYZ")
    mom = 1e-9 * s.rho * s.vol.sum() * v
    fl.update({"Global_Linear_Momentum": mom, "Global_Angular_Momentum": mom * np.abs(s.x).max() * 3})
    msg = scen.compare(a, b, floors=fl)
    if msg:
        return Bad("1 and %d processes: %s" % (case["np"], msg))
    crossing = (b.proc[s.body.I] != b.proc[s.body.J]).any()
    return Ok(case_key(case) if crossing else None, scen.tags(s) + ["np=%d" % case["np"]] + scen.given_up(a))
