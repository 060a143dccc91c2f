"""Equivalent inputs give identical runs."""
import re

import numpy as np
from hypothesis import strategies as st

from .. import gen, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case runs one random simulation written in two ways and compares every output value. It is non-trivial if the two inputs "
        "differ and something moves.")
TECHNIQUE = ("metamorphic property-based testing: one generated simulation in two equivalent forms (file format, order, elastic constants, "
             "influence function, expressions, node set files, damage and contact models with constant expressions, time origin, units)")
LEVEL_NOTE = ("Random bodies of up to 64 points, 1 to 3 blocks, all material families, damage, contact, temperatures, up to 6 steps, "
              "1 or 2 processes; units change by powers of two up to 1024 in length, time and mass.")
ASSUMPTIONS = ["differences up to 1e-7 of the largest value of a field are rounding"]
QUICK = dict(examples=2000, cap_s=21)
THOROUGH = dict(examples=40000, cap_s=1800)

# the hourglass force of the correspondence laws depends on the unit of length (known finding)
FIXED = [{"form": "units", "np": 1, "seed": 0, "units": [1, 0, 0], "hourglass": True,
          "scenario": {"law": "corr elastic", "cloud": {"kind": "lattice", "seed": 0, "scale": 1.0, "offset": 0.0, "dims": [3, 3, 3],
                                                        "jitter": 0.1},
                       "nblocks": 1, "how": "random", "factor": 1.9, "ratio": 1.0, "influence": "One", "mixed": False, "damage": False,
                       "contact": False, "solver": "verlet", "steps": 1, "amp": 0.001, "load": "velocity", "level": 0.2,
                       "thermal": False, "moduli": 0}}]
FORMS = ["format", "order", "constants", "influence", "horizon", "values", "sets", "damage", "contact", "time", "units", "units"]


@st.composite
def cases(draw, tier):
    form = draw(st.sampled_from(FORMS))
    np_ = draw(st.sampled_from([1, 1, 1, 2]))
    infl = ("One", "Gaussian", "Parabolic Decay")
    laws = tuple(scen.STATE + scen.CORR + scen.BA)
    kw = dict(np_max=np_, max_steps=6, influences=infl, loads=("velocity", "pull", "body", "displaced"))
    if form == "horizon":
        kw["laws"] = ("corr elastic", "corr plastic", "corr hardening", "corr visco")
    elif form == "contact":
        kw.update(laws=("elastic", "plastic", "bond"), contact=(True,), loads=("velocity", "body"), kinds=("lattice", "random"), amps=(0.1, 0.3))
    elif form == "damage":
        kw.update(laws=("elastic", "plastic", "bond", "linear"), damage=(True,))
    elif form == "influence":
        kw["laws"] = tuple(l for l in laws if l not in ("pals", "bond"))
    elif form == "constants":
        kw["laws"] = laws
    else:
        if draw(st.booleans()):
            kw.update(laws=laws)
        else:
            kw.update(laws=("elastic", "plastic", "bond"), contact=(False, True), loads=("velocity", "body"), amps=(0.1, 0.3))
        kw["thermal"] = (False, False, True) if form != "time" else (False,)
    s = draw(scen.scenarios(**kw))
    c = {"form": form, "np": np_, "scenario": s, "seed": draw(gen.seeds)}
    if form == "units":
        c["units"] = [draw(st.integers(-10, 10)) for _ in range(3)]
    if form == "constants":
        c["pair"] = draw(st.sampled_from(gen.ELASTIC_PAIRS[1:]))
    return c


def strategy(tier):
    return cases(tier)


def replace_names(e, names):
    return re.sub(r"\b(%s)\b" % "|".join(names), lambda m: names[m.group(1)], e)


def shuffled(d, r):
    keys = list(d)
    r.shuffle(keys)
    return {k: shuffled(d[k], r) if isinstance(d[k], dict) else d[k] for k in keys}


EXPRESSIONS = {"One": ["1.0", "zeta/zeta", "value = 1.0;"],
               "Gaussian": ["exp(0.0 - zeta*zeta/(0.16*horizon*horizon))", "value = exp((0.0 - 6.25)*(zeta/horizon)*(zeta/horizon));"],
               "Parabolic Decay": ["value = 1.0; if (zeta >= 0.5*horizon) { value = 4.0*zeta/horizon - 4.0*zeta*zeta/(horizon*horizon); } if (zeta > horizon) { value = 0.0; }"]}
# powers of length, time and mass
DIMENSIONS = {"Displacement": (1, 0, 0), "Velocity": (1, -1, 0), "Force_Density": (-2, -2, 1), "Contact_Force_Density": (-2, -2, 1),
              "Damage": (0, 0, 0), "Dilatation": (0, 0, 0), "Weighted_Volume": (5, 0, 0), "Lambda": (6, 2, -1),
              "Cauchy_Stress": (-1, -2, 1), "Von_Mises_Stress": (-1, -2, 1), "Deformation_Gradient": (0, 0, 0),
              "Equivalent_Plastic_Strain": (0, 0, 0)}


def rescaled(s, L, T, M):
    q = s.copy()
    q.x, q.vol, q.hor, q.h = s.x * L, s.vol * L ** 3, s.hor * L, s.h * L
    mod, den = M / (L * T ** 2), M / L ** 3
    q.dt, q.t0, q.tf = s.dt * T, s.t0 * T, s.tf * T
    for k in range(s.nb):
        m = scen.material(s.laws[k], s.K[k] * mod, s.mu[k] * mod, s.rho * den, s.case["level"], q.h, q.hor[k], s.amp, q.dt)
        if "Thermal Expansion Coefficient" in s.materials[k]:
            m["Thermal Expansion Coefficient"] = s.materials[k]["Thermal Expansion Coefficient"]
        if "Hourglass Coefficient" in m:
            m["Hourglass Coefficient"] = s.materials[k]["Hourglass Coefficient"]
        q.materials[k] = m
    if s.contact:
        q.contact.update(radius=s.contact["radius"] * L, search=s.contact["search"] * L, spring=s.contact["spring"] * mod)
    unit = {"Initial Velocity": L / T, "Initial Displacement": L, "Prescribed Displacement": L, "Body Force": M / (L ** 2 * T ** 2),
            "Prescribed Temperature": 1.0}
    names = {"x": "(x*%r)" % (1 / L), "y": "(y*%r)" % (1 / L), "z": "(z*%r)" % (1 / L), "t": "(t*%r)" % (1 / T)}
    q.loads = [(typ, pts, c, "%r*(%s)" % (unit[typ], replace_names(e, names))) for typ, pts, c, e in s.loads]
    return q


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    form, np_ = case["form"], case["np"]
    if form == "units" and not case.get("hourglass"):
        for m in s.materials:
            if "Hourglass Coefficient" in m:
                m["Hourglass Coefficient"] = 0.0
    r = gen.rng(case["seed"], 4)
    p, f = scen.render(s)
    fmt1, fmt2 = "xml", "xml"
    q, g = scen.render(s)
    back = {}
    if form == "format":
        fmt2 = "yaml"
    elif form == "order":
        q = shuffled(q, r)
        fmt1 = fmt2 = "xml" if r.random() < 0.5 else "yaml"
    elif form == "constants":
        for k in range(s.nb):
            m = q["Materials"]["m%d" % k]
            m.pop("Shear Modulus", None)
            K = m.pop("Bulk Modulus")
            if s.laws[k] == "bond":
                m["Young's Modulus"] = float(1.5 * K)
            else:
                m.update(gen.elastic_constants(s.K[k], s.mu[k], case["pair"]))
    elif form == "influence":
        e = EXPRESSIONS[s.influence]
        q["Discretization"]["Influence Function"] = e[int(r.integers(len(e)))]
    elif form == "horizon":
        for k in range(s.nb):
            b = q["Blocks"]["b%d" % k]
            b["Horizon"] = ["%r" % b["Horizon"], "0.5*(%r + %r)" % (b["Horizon"], b["Horizon"]), "value = %r + 0.0*x;" % b["Horizon"]][int(r.integers(3))]
    elif form == "values":
        for k, b in q["Boundary Conditions"].items():
            if isinstance(b, dict):
                b["Value"] = ["value = %s;", "(%s) + 0.0*z", "1.0*(%s)"][int(r.integers(3))] % b["Value"]
    elif form == "sets":
        for k in list(q["Boundary Conditions"]):
            if k.startswith("Node Set"):
                name = "set%s.txt" % k.split()[-1]
                g[name] = q["Boundary Conditions"][k].replace(" ", "\n") + "\n"
                q["Boundary Conditions"][k] = name
    elif form == "damage":
        if not s.damage:
            return Discard("no damage model")
        for d in q["Damage Models"].values():
            d["Damage Model"] = "Time Dependent Critical Stretch"
            d["Time Dependent Critical Stretch"] = ["%r", "%r + 0.0*t", "value = %r;"][int(r.integers(3))] % d.pop("Critical Stretch")
    elif form == "contact":
        m = q["Contact"]["Models"]["model"]
        m["Contact Model"] = "Time Dependent Short Range Force"
        v = m.get("Friction Coefficient", 0.0)
        m["Friction Coefficient"] = ["%r", "%r + 0.0*t", "value = %r;"][int(r.integers(3))] % v
        p["Contact"]["Models"]["model"]["Friction Coefficient"] = v
    elif form == "time":
        shift = float(s.dt * r.choice([0.5, 3.0, 10.0]))
        w = s.copy()
        w.t0, w.tf = shift, s.tf + shift
        w.loads = [(typ, pts, c, e if typ.startswith("Initial") else replace_names(e, {"t": "(t - %s)" % gen.num(shift)})) for typ, pts, c, e in s.loads]
        q, g = scen.render(w)
    elif form == "units":
        L, T, M = (2.0 ** k for k in case["units"])
        if s.law == "pals":
            L = 1.0         # its influence functions are densities per length to the fifth, given as pure numbers
        q, g = scen.render(rescaled(s, L, T, M))
        for k, d in DIMENSIONS.items():
            back[k] = L ** -d[0] * T ** -d[1] * M ** -d[2]
    a = runner.simulate(p, f, np_, points=s.n, fmt=fmt1)
    b = runner.simulate(q, g, np_, points=s.n, fmt=fmt2)
    if form == "units":
        b.times = b.times / T
        for d in (b.nodal, b.elem):
            for name in d:
                base = [k for k in back if name == k or re.fullmatch(re.escape(k) + "[XYZ]{1,2}", name)]
                if not base:
                    return Discard("field of unknown unit")
                d[name] = d[name] * back[base[0]]
    if form == "time":
        b.times = b.times - shift
    if not np.allclose(a.times, b.times, rtol=1e-9, atol=1e-9 * s.dt):
        return Bad("%s: times %s and %s" % (form, a.times.tolist(), b.times.tolist()))
    b.times = a.times
    msg = scen.compare(a, b, floors=scen.floors(s))
    if msg:
        return Bad("%s: %s" % (form, msg), finding="hourglass" if case.get("hourglass") else None)
    return Ok(case_key(case), scen.tags(s) + ["form " + form, "np=%d" % np_])
