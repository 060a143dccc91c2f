"""Explicit dynamics is velocity Verlet with the promised step."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case checks displacement, velocity and time of every step against the reported forces, the given loads and the "
        "promised step, or compares a run in one piece with the same run cut into consecutive solvers. It is non-trivial if "
        "there are at least two steps and the body has forces.")
TECHNIQUE = ("property-based testing of the discrete equations of motion on generated simulations, stable step recomputed from "
             "the definition, and comparison of one solver with consecutive ones")
LEVEL_NOTE = ("Random bodies of up to 64 points in up to 3 blocks of different density, stiffness and horizon, all material "
              "families, damage, contact with friction, prescribed motion and body forces, up to 12 steps, 1 to 4 processes.")
ASSUMPTIONS = ["differences up to 1e-9 of the largest increment are rounding",
               "consecutive solvers are compared for materials and contact whose force does not depend on velocity or step size"]
QUICK = dict(examples=2400, cap_s=21)
THOROUGH = dict(examples=50000, cap_s=1800)
RATE = ("visco", "corr", "hypo", "ba")


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
    fam = draw(st.sampled_from(["state", "state", "state", "contact", "corr", "ba"]))
    loads = ("velocity", "pull", "body", "displaced")
    if fam == "state":
        s = draw(scen.scenarios(np_max=np_, thermal=(False, False, True), ratios=(1.0, 1.0, 1.4), mixed=(False, False, True), loads=loads,
                                max_steps=12))
    elif fam == "contact":
        s = draw(scen.scenarios(laws=("elastic", "plastic"), np_max=np_, contact=(True,), loads=("velocity", "body"),
                                kinds=("lattice", "random"), amps=(0.1, 0.3), max_steps=12))
    else:
        s = draw(scen.scenarios(laws=tuple(scen.CORR if fam == "corr" else scen.BA), np_max=np_, max_steps=6, loads=loads,
                                ratios=(1.0, 1.3) if fam == "corr" else (1.0,)))
    return {"np": np_, "scenario": s, "step": draw(st.sampled_from(["fixed", "fixed", "scaled", "computed", "computed", "fraction"])),
            "safety": draw(st.sampled_from([0.3, 0.5, 0.8])), "t0": draw(st.sampled_from([0.0, 0.0, 0.0, 2.5])),
            "rest": draw(st.sampled_from([0.1, 0.5, 0.9])),
            "density": draw(st.booleans()), "cut": draw(st.sampled_from([0, 0, 1, 2, 3])), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    r = gen.rng(case["seed"])
    rho = np.full(s.nb, s.rho)
    if case["density"]:
        # heavier, so that the step of the scenario stays stable
        rho = rho * r.uniform(1.0, 3.0, s.nb)
        for k in range(s.nb):
            s.materials[k]["Density"] = float(rho[k])
    prho = rho[s.blk]
    crit = ref.critical_time_step(s.body, s.K[s.blk], prho)
    bonded = np.isfinite(crit)
    mode = case["step"] if bonded else "fixed"
    if mode == "computed" and not (s.law in ("elastic", "bond", "linear", "plastic") and s.amp <= 1e-2):
        mode = "fraction"
    verlet = {}
    if mode == "fixed":
        dt = s.dt
        verlet["Fixed dt"] = float(dt)
    elif mode == "scaled":
        dt = s.dt * case["safety"]
        verlet.update({"Fixed dt": float(s.dt), "Safety Factor": case["safety"]})
    elif mode == "computed":
        dt = crit
    else:
        dt = crit * case["safety"]
        verlet["Safety Factor"] = case["safety"]
    N = s.steps
    # loads are functions of the time of the run from 0; a later start only shifts the clock
    t0 = case["t0"] * s.dt
    if t0 and any(l[0] in ("Prescribed Displacement", "Prescribed Temperature") for l in s.loads):
        t0 = 0.0
    tf = t0 + (N + case["rest"]) * dt
    solver = {"Verbose": False, "Initial Time": float(t0), "Final Time": float(tf), "Verlet": dict(verlet)}
    p, f = scen.render(s, outputs=s.outputs, solver=solver)
    try:
        o = runner.simulate(p, f, case["np"], points=s.n)
    except runner.Broken as e:
        if "Too many iterations in the plastic radial return" in e.out:
            return Discard("the step is too large for the material")
        raise
    tags = scen.tags(s) + ["step " + mode, "np=%d" % case["np"]]
    times = t0 + np.arange(N + 1) * dt
    if o.nt != N + 1:
        return Bad("%s step, from %r to %r: %d outputs, the step %r gives %d" % (mode, t0, tf, o.nt, dt, N + 1))
    if not np.allclose(o.times, times, rtol=1e-10, atol=1e-10 * dt):
        return Bad("%s step: times %s, expected %s" % (mode, o.times.tolist(), times.tolist()))
    u, v, F = exo.vec(o, "Displacement"), exo.vec(o, "Velocity"), exo.vec(o, "Force_Density")
    if not (np.isfinite(u).all() and np.isfinite(v).all() and np.isfinite(F).all()):
        return Bad("a result is not a number")
    B = np.zeros((N + 1, s.n, 3))
    held = np.zeros((s.n, 3), bool)
    for typ, pts, c, e in s.loads:
        if typ == "Body Force":
            for t in range(N + 1):
                B[t, pts, c] = gen.evaluate_expression(e, s.x, times[t])[pts]
        elif typ == "Prescribed Displacement":
            held[pts, c] = True
    a = (F + B) / prho[None, :, None]
    vs = max(np.abs(v).max(), np.abs(a).max() * dt, 1e-6 * s.amp * s.h / dt)
    for t in range(N):
        du = u[t + 1] - u[t] - dt * v[t] - dt * dt / 2 * a[t]
        dv = v[t + 1] - v[t] - dt / 2 * (a[t] + a[t + 1])
        eps = 1e-14 * np.abs(u).max()
        for what, d, tol in (("displacement", du, 1e-9 * vs * dt + eps), ("velocity", dv, 1e-9 * vs)):
            d = np.where(held, 0.0, np.abs(d))
            if (d > tol).any():
                i, c = np.unravel_index(np.argmax(d), d.shape)
                return Bad("step %d, point %d, component %s: the %s does not follow velocity Verlet, off by %.6g (largest "
                           "increment %.6g)" % (t + 1, i + 1, "xyz"[c], what, float(d[i, c]), vs * (dt if what == "displacement" else 1)))
    rate = s.law.split()[0] in RATE or (s.contact and s.contact["friction"])
    if s.contact and N:
        # the next search must come before an unlisted pair can touch; a new solver restarts its count
        move = np.linalg.norm(u[1:] - u[:-1], axis=-1).max()
        rate = rate or 2 * move * (2 * s.contact["frequency"] + 1) > s.contact["search"] - s.contact["radius"]
    if case["cut"] and not rate and N >= 2 and not t0:
        # the same run in pieces
        cuts = sorted(set(r.integers(1, N, case["cut"]).tolist()))
        ends = cuts + [N]
        start, extra = 0, {}
        for q, e in enumerate(ends):
            sl = {"Verbose": False, "Initial Time": float(start * dt), "Final Time": float((e + case["rest"] * 0.9) * dt), "Verlet": dict(verlet)}
            extra["Solver" if q == 0 else "Solver %d" % (q + 1)] = sl
            start = e
        first = extra.pop("Solver")
        p, f = scen.render(s, outputs=s.outputs, solver=first, extra=extra)
        o2 = runner.simulate(p, f, case["np"], points=s.n)
        want = []
        start = 0
        for e in ends:
            want += list(range(start, e + 1))
            start = e
        if o2.nt != len(want):
            return Bad("solvers ending at steps %s wrote %d outputs instead of %d" % (ends, o2.nt, len(want)))
        want = np.array(want)
        if not np.allclose(o2.times, times[want], rtol=1e-10, atol=1e-10 * dt):
            return Bad("solvers ending at steps %s: times %s" % (ends, o2.times.tolist()))
        o.times = o2.times
        o.nt = o2.nt
        o.nodal = {k: w[want] for k, w in o.nodal.items()}
        o.elem = {k: w[want] for k, w in o.elem.items()}
        fl = scen.floors(s)
        msg = scen.compare(o, o2, floors=fl)
        if msg:
            return Bad("one solver against solvers ending at steps %s (rows are steps %s): %s" % (ends, want.tolist(), msg))
        tags.append("consecutive solvers")
    if np.abs(F).max() == 0 or N < 2:
        return Ok(None, tags)
    return Ok(case_key(case), tags)
