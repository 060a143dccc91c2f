"""Internal and contact forces add up to nothing."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case sums forces and moments of one random simulation at every step, and momenta if the body is free. It is "
        "non-trivial if the forces are well above rounding in some step.")
TECHNIQUE = "property-based testing of conservation laws on generated simulations"
LEVEL_NOTE = ("Random bodies of up to 64 points, all material families, fracture, contact with friction, thermal strain, "
              "different horizons, 1 to 4 processes, up to 10 steps.")
ASSUMPTIONS = ["sums up to 1e-9 of the sum of magnitudes are rounding"]
QUICK = dict(examples=2400, cap_s=20)
THOROUGH = dict(examples=60000, cap_s=2400)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
    fam = draw(st.sampled_from(["state", "state", "state", "contact", "corr", "ba"]))
    if fam == "state":
        s = draw(scen.scenarios(np_max=np_, thermal=(False, False, True), ratios=(1.0, 1.4), mixed=(False, False, True),
                                influences=("One", "Gaussian", "Parabolic Decay"), max_steps=10,
                                loads=("velocity", "velocity", "pull", "body", "displaced")))
    elif fam == "contact":
        s = draw(scen.scenarios(laws=("elastic", "plastic", "bond"), np_max=np_, contact=(True,), loads=("velocity",),
                                ratios=(1.0, 1.3), kinds=("lattice", "random"), amps=(0.1, 0.3), max_steps=10))
    else:
        s = draw(scen.scenarios(laws=tuple(scen.CORR if fam == "corr" else scen.BA), np_max=np_, max_steps=5,
                                loads=("velocity", "pull")))
    return {"np": np_, "scenario": s}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    outs = ["Displacement", "Velocity", "Force_Density"] + (["Contact_Force_Density"] if s.contact else [])
    p, f = scen.render(s, outputs=outs)
    o = runner.simulate(p, f, case["np"], points=s.n, steps=s.steps + 1)
    V = s.vol[:, None]
    floor = scen.floors(s)["Force_Density"] * s.vol.sum()
    loaded = False
    central = all(l in scen.CENTRAL for l in s.laws)
    friction = bool(s.contact and s.contact["friction"])
    free = s.case["load"] in ("velocity", "displaced")
    m = s.rho * V
    centre = s.x.mean(0)
    for t in range(o.nt):
        u = exo.vec(o, "Displacement", t)
        F = exo.vec(o, "Force_Density", t) * V
        parts = [("the forces", F)]
        if s.contact:
            C = exo.vec(o, "Contact_Force_Density", t) * V
            parts += [("the contact forces", C)]
        for name, G in parts:
            size = np.abs(G).sum()
            if not np.isfinite(size):
                return Bad("step %d: %s are not finite" % (t, name))
            if size > 1e3 * floor:
                loaded = True
            tol = 1e-9 * size + floor
            total = G.sum(0)
            if np.abs(total).max() > tol:
                return Bad("step %d: %s add up to %s, their magnitudes to %g" % (t, name, total.tolist(), size))
            arm = (s.x if s.law == "linear" else s.x + u) - centre
            if (central and not friction) or s.law == "linear":
                moment = np.cross(arm, G).sum(0)
                if np.abs(moment).max() > tol * (np.abs(arm).max() + s.h) * 3:
                    return Bad("step %d: the moments of %s add up to %s; largest arm %g, sum of magnitudes %g" % (
                        t, name, moment.tolist(), np.abs(arm).max(), size))
        if free:
            v = exo.vec(o, "Velocity", t)
            P = (m * v).sum(0)
            L = (m * np.cross(s.x + u - centre, v)).sum(0)
            if t == 0:
                P0, L0 = P, L
                T = s.steps * s.dt
                scale = np.abs(m * v).sum()
                fsum = np.abs(F).sum()
            scale = max(scale, np.abs(m * v).sum())
            fsum = max(fsum, np.abs(F).sum())
            tol = 1e-10 * scale + (1e-9 * fsum + floor) * T
            if np.abs(P - P0).max() > tol:
                return Bad("step %d: linear momentum of a free body changed from %s to %s (sum of magnitudes %g)" % (
                    t, P0.tolist(), P.tolist(), scale))
            if central and not friction:
                arm = np.abs(s.x + u - centre).max() + s.h
                if np.abs(L - L0).max() > 3 * tol * arm:
                    return Bad("step %d: angular momentum of a free body changed from %s to %s" % (t, L0.tolist(), L.tolist()))
    return Ok(case_key(case) if loaded else None, scen.tags(s) + ["np=%d" % case["np"]] + (["friction"] if friction else []))
