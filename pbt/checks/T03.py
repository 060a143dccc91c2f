"""Implicit dynamics satisfies the Newmark equations."""
import re

import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case checks the update relations and the equation of motion of every step of an implicit run. It is non-trivial if "
        "there are at least two steps and the body has internal forces.")
TECHNIQUE = "property-based testing of the discrete equations of motion, forces recomputed from an independent force law"
LEVEL_NOTE = ("Random bodies of 8 to 48 points in 1 to 3 blocks of different stiffness, density and horizon; elastic, bond based, "
              "linear, plastic, viscoelastic and correspondence materials; beta 1/8 to 1/2, gamma 1/2 to 1, steps 0.3 to 8 times "
              "the stable explicit step; initial velocity and displacement, body forces varying in time, fixed points; 1 to 4 "
              "processes.")
ASSUMPTIONS = ["the acceleration before the first step may be taken as zero or from the initial forces",
               "the tolerance bounds the 2-norm of beta dt^2 times the unbalanced force density, as the solver documents it"]
QUICK = dict(examples=2000, cap_s=21)
THOROUGH = dict(examples=40000, cap_s=1800)


@st.composite
def cases(draw, tier, processes=(1, 1, 1, 2, 3, 4)):
    np_ = draw(st.sampled_from(processes))
    law = draw(st.sampled_from(["elastic"] * 6 + ["bond", "linear", "plastic", "hardening", "visco", "corr elastic"]))
    dt = draw(st.sampled_from([0.3, 1.0, 3.0, 8.0] if law not in ("plastic", "hardening") else [0.3, 1.0]))
    full = law == "corr elastic"
    low = max(8 * np_, 27 if full else 2)
    cloud = draw(gen.clouds(min_points=low, max_points=max(low, 40 if not full else 36), min_side=3 if full else 1, max_side=4 if full else 5,
                            kinds=("lattice",) if full else ("lattice", "lattice", "lattice", "random"),
                            jitters=(0.0, 0.1, 0.2) if not full else (0.1,), scales=(1.0, 1e-2, 1e2), offsets=(0.0, 0.0, 1.0)))
    return {"np": np_, "law": law, "cloud": cloud, "nblocks": draw(st.sampled_from([1, 1, 2, 3])),
            "how": draw(st.sampled_from(["random", "slabs"])),
            "factor": draw(st.sampled_from([1.8, 2.3, 3.1])) if not full else 2.3,
            "ratio": draw(st.sampled_from([1.0, 1.0, 1.3])) if law in ("elastic", "bond") else 1.0,
            "amp": draw(st.sampled_from([1e-4, 1e-3, 1e-2])), "steps": draw(st.integers(1, 5)),
            "beta": draw(st.sampled_from([None, 0.25, 0.25, 0.5, 0.3025] + ([1 / 6, 0.125] if dt < 3 else []))),
            "gamma": draw(st.sampled_from([None, 0.5, 0.5, 0.6, 1.0])),
            "dt": dt, "tol": draw(st.sampled_from([1e-5, 1e-7, 1e-9])),
            "t0": draw(st.sampled_from([0.0, 0.0, 2.0])), "load": draw(st.sampled_from(["velocity", "displaced", "both"])),
            "force": draw(st.sampled_from([None, "constant", "ramp", "wave"])), "fixed": draw(st.booleans()), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n = len(x)
    law, amp = case["law"], case["amp"]
    vol = gen.volumes(case["cloud"], n, h, spread=0.3)
    nb = min(case["nblocks"], n)
    blk = gen.assign_blocks(x, nb, case["how"], case["seed"])
    if blk is None:
        return Discard("degenerate body")
    hor = case["factor"] * h * case["ratio"] ** np.arange(nb)
    b = ref.Body(x, vol, hor[blk], "One")
    if b.ambiguous or not len(b.z) or np.min(b.z) < 0.25 * h or b.M.sum(1).min() == 0:
        return Discard("degenerate body")
    if law == "corr elastic" and gen.degenerate(x, vol, b.M, 0.02):
        return Discard("degenerate body")
    r = gen.rng(case["seed"], 3)
    K = 10 ** r.uniform(9, 11) * r.uniform(0.5, 1.5, nb)
    nu = r.uniform(0.15, 0.35, nb)
    mu = 3 * K * (1 - 2 * nu) / (2 * (1 + nu))
    rho = 10 ** r.uniform(3, 4) * r.uniform(0.6, 1.5, nb)
    pK, pmu, prho = K[blk], mu[blk], rho[blk]
    crit = ref.critical_time_step(b, pK, prho)
    dt = float("%.6g" % (case["dt"] * crit))
    N = case["steps"]
    beta = 0.25 if case["beta"] is None else case["beta"]
    gamma = 0.5 if case["gamma"] is None else case["gamma"]
    T = N * dt
    t0 = case["t0"] * dt
    mats = {"m%d" % k: scen.material(law, K[k], mu[k], rho[k], 0.5, h, hor[k], amp, dt) for k in range(nb)}
    bc = gen.all_points(n)
    shape = gen.motion_expressions({"kind": "waves", "amp": amp, "seed": case["seed"]}, x, h)
    ax = int(np.argmax(np.ptp(x, axis=0)))
    order = np.argsort(x[:, ax], kind="stable")
    fixed = np.sort(order[:max(1, n // 5)]) if case["fixed"] and n >= 6 else np.zeros(0, int)
    loose = np.setdiff1d(np.arange(n), fixed)
    bc["Node Set Loose"] = gen.node_list(loose)
    held = np.zeros((n, 3), bool)
    if len(fixed):
        bc["Node Set Fixed"] = gen.node_list(fixed)
        for k in range(3):
            if k == 0 or r.random() < 0.7:
                bc["fix %d" % k] = {"Type": "Prescribed Displacement", "Node Set": "Node Set Fixed", "Coordinate": "xyz"[k], "Value": "0.0"}
                held[fixed, k] = True
    v0, u0 = np.zeros((n, 3)), np.zeros((n, 3))
    for k in range(3):
        if case["load"] in ("velocity", "both"):
            e = "(%s)*%s" % (shape[k], gen.num(1 / T))
            bc["iv %d" % k] = {"Type": "Initial Velocity", "Node Set": "Node Set Loose", "Coordinate": "xyz"[k], "Value": e}
            v0[loose, k] = gen.evaluate_expression(e, x)[loose]
        if case["load"] in ("displaced", "both"):
            e = "(%s)*%s" % (shape[(k + 1) % 3], gen.num(0.5))
            bc["iu %d" % k] = {"Type": "Initial Displacement", "Node Set": "Node Set Loose", "Coordinate": "xyz"[k], "Value": e}
            u0[loose, k] = gen.evaluate_expression(e, x)[loose]
    amps = np.zeros((n, 3))
    if case["force"]:
        part = np.sort(r.permutation(n)[:max(1, n // 2)])
        bc["Node Set B"] = gen.node_list(part)
        ft = {"constant": "1.0", "ramp": "(1.0 + t*%s)" % gen.num(1 / T), "wave": "sin(t*%s)" % gen.num(3 / T)}[case["force"]]
        for k in range(3):
            v = float(np.mean(rho) * amp * h / T ** 2 * r.uniform(-3, 3))
            bc["force %d" % k] = {"Type": "Body Force", "Node Set": "Node Set B", "Coordinate": "xyz"[k], "Value": "%s*%s" % (gen.num(v), ft)}
            amps[part, k] = v

    def body(t):
        return amps * {"constant": 1.0, "ramp": 1 + t / T, "wave": np.sin(3 * t / T), None: 0.0}[case["force"]]

    tol = float(case["tol"] * np.mean(rho) * amp * h)
    imp = {"Fixed dt": dt, "Absolute Tolerance": tol, "Maximum Solver Iterations": 40}
    if case["beta"] is not None:
        imp["Beta"] = beta
    if case["gamma"] is not None:
        imp["Gamma"] = gamma
    solver = {"Verbose": False, "Initial Time": float(t0), "Final Time": float(t0 + (N + 0.5) * dt), "Implicit": imp}
    blocks = {"b%d" % k: {"Block Names": "block_%d" % (k + 1), "Material": "m%d" % k, "Horizon": float(hor[k])} for k in range(nb)}
    p, f = gen.text_deck(x, vol, blk + 1, blocks, mats, ["Displacement", "Force_Density", "Velocity"], solver=solver, bc=bc)
    # slender bodies may buckle, which makes the tangent indefinite
    stout = min(case["cloud"].get("dims", [1])) > 1
    known = law in ("elastic", "bond") and amp < 1e-2 and stout
    try:
        o = runner.simulate(p, f, case["np"], points=n)
    except runner.Broken as e:
        if not known and "non-positive value" in e.out:
            return Discard("tangent not positive definite, as reported")
        raise
    times = t0 + dt * np.arange(N + 1)
    if o.nt != N + 1 or not np.allclose(o.times, times, rtol=1e-10, atol=1e-10 * dt):
        return Bad("times %s, expected %s" % (o.times.tolist(), times.tolist()))
    U, V, F = exo.vec(o, "Displacement"), exo.vec(o, "Velocity"), exo.vec(o, "Force_Density")
    if not (np.isfinite(U).all() and np.isfinite(V).all() and np.isfinite(F).all()):
        return Bad("a result is not a number")
    # the solver goes on after the largest number of iterations, which plastic bodies may need
    last = [re.findall(r"residual\s*=\s*(\S+)", t) for t in o.stdout.split("Load step")[1:]]
    failed = any(t and not float(t[-1]) <= tol for t in last)
    if failed and not known:
        return Discard("not converged, as reported")
    us = max(np.abs(U).max(), dt * np.abs(V).max())
    if us > 20 * amp * max(h, np.ptp(x)):
        return Discard("blown up")
    for what, got, want, s in (("displacement", U[0], u0, us), ("velocity", V[0], v0, us / dt)):
        if np.abs(got - want).max() > 1e-9 * s:
            return Bad("the initial %s is not the given one" % what)
    if np.abs(np.where(held, U, 0)).max() > 1e-12 * us:
        return Bad("a fixed point moved")
    eps = 4e-15 * (np.abs(x).max() + h)
    ffloor = 50 * eps * (np.max(K) + np.max(mu)) / h ** 2

    def force(u):
        y = x + u
        if law == "bond":
            t = ref.bond_based(b, y, pK)
        elif law == "linear":
            t, _ = ref.linear_lps(b, y, pK, pmu)
        else:
            t, _ = ref.lps(b, y, pK, pmu)
        return b.assemble(t)

    exact = law in ("elastic", "bond", "linear")
    fs = [force(U[k]) if exact else F[k] for k in range(N + 1)]
    if exact:
        for k in range(1, N + 1):
            if np.abs(fs[k] - F[k]).max() > 1e-6 * np.abs(fs[k]).max() + ffloor:
                return Bad("step %d: the reported force density is not that of the reported displacements" % k)
    m = prho[:, None]
    growth = max(1.0, abs(0.5 - beta) / beta) ** N

    def follows(a0):
        a = a0
        for k in range(N):
            an = (U[k + 1] - U[k] - dt * V[k] - dt * dt * (0.5 - beta) * a) / (beta * dt * dt)
            an[held] = 0.0
            dv = V[k + 1] - V[k] - dt * ((1 - gamma) * a + gamma * an)
            d = np.where(held, 0.0, np.abs(dv))
            if d.max() > (1e-9 + 1e-13 * growth / beta) * us / dt:
                i, c = np.unravel_index(np.argmax(d), d.shape)
                return "step %d, point %d, %s: displacement and velocity do not follow Newmark's relations with beta %g and gamma %g: " \
                    "velocity off by %.6g of %.6g" % (k + 1, i + 1, "xyz"[c], beta, gamma, d.max(), us / dt)
            R = beta * dt * dt * np.where(held, 0.0, m * an - fs[k + 1] - body(times[k + 1]))
            nrm = np.linalg.norm(R)
            lim = tol * 1.001 + np.sqrt(3 * n) * (1e-13 * growth * us * np.max(prho) + beta * dt * dt * ffloor)
            if nrm > lim:
                i, c = np.unravel_index(np.argmax(np.abs(R)), R.shape)
                return "step %d: the equation of motion is not satisfied at the new time: residual %.6g, tolerance %.6g; largest at point " \
                    "%d, %s" % (k + 1, nrm, tol, i + 1, "xyz"[c])
            a = an
        return None

    # a body at rest or with the acceleration of its initial forces
    a1 = np.where(held, 0.0, ((force(U[0]) if exact else F[0]) + body(times[0])) / m)
    msg = follows(np.zeros((n, 3)))
    if msg and follows(a1):
        return Bad(msg)
    tags = ["law " + law, "np=%d" % case["np"], "load " + case["load"], "force %s" % case["force"], "dt %g" % case["dt"]]
    if len(fixed):
        tags.append("fixed points")
    if N < 2 or np.abs(F).max() == 0:
        return Ok(None, tags)
    return Ok(case_key(case), tags)
