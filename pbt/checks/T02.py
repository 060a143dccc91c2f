"""Accepted quasi-static steps are in equilibrium."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case solves a quasi-static problem and checks the balance of forces of every reported step. It is non-trivial if at "
        "least one loaded step was accepted and the body has free degrees of freedom that moved.")
TECHNIQUE = ("property-based testing of the balance of forces, recomputed from an independent force law, and comparison with a "
             "direct solution of the linearised problem at small strain")
LEVEL_NOTE = ("Random bodies of 8 to 48 points in 1 to 3 blocks of different stiffness and horizon; elastic, bond based, linear, "
              "plastic, viscoelastic and correspondence materials; both quasi-static solvers with their linear solvers, "
              "tolerances, step lists and load step reduction; 1 to 4 processes.")
ASSUMPTIONS = ["the tolerance bounds the 2-norm of the forces on free degrees of freedom; the solver may accept a hundred times "
               "the tolerance if it says so",
               "the relative tolerance refers to the reactions at the beginning of the step, as documented by the solver"]
QUICK = dict(examples=2000, cap_s=21)
THOROUGH = dict(examples=40000, cap_s=1800)


@st.composite
def cases(draw, tier, processes=(1, 1, 1, 2, 3, 4)):
    np_ = draw(st.sampled_from(processes))
    law = draw(st.sampled_from(["elastic"] * 6 + ["bond", "linear", "plastic", "hardening", "visco", "corr elastic"]))
    full = law == "corr elastic"
    low = max(8 * np_, 27 if full else 8)
    cloud = draw(gen.clouds(min_points=low, max_points=max(low, 48 if not full else 36), min_side=3 if full else 2, max_side=4 if full else 5,
                            kinds=("lattice",) if full else ("lattice", "lattice", "random"), jitters=(0.0, 0.1, 0.2) if not full else (0.1,),
                            scales=(1.0, 1e-2, 1e2), offsets=(0.0, 0.0, 1.0)))
    solver = draw(st.sampled_from(["qs", "qs", "qs", "nox"]))
    c = {"np": np_, "law": law, "cloud": cloud, "nblocks": draw(st.sampled_from([1, 1, 2, 3])), "solver": solver,
         "how": draw(st.sampled_from(["random", "slabs"])),
         "factor": draw(st.sampled_from([1.8, 2.3, 3.1])) if not full else 2.3,
         "ratio": draw(st.sampled_from([1.0, 1.0, 1.3])) if law in ("elastic", "bond") else 1.0,
         "influence": draw(st.sampled_from(["One", "One", "Parabolic Decay", "Gaussian"])) if law == "elastic" else "One",
         "amp": draw(st.sampled_from([1e-6, 1e-4, 1e-3, 1e-2, 5e-2] if law == "elastic" else [1e-4, 1e-3, 1e-2])),
         "load": draw(st.sampled_from(["pull", "pull", "body", "both", "cycle"])),
         "t0": draw(st.sampled_from([0.0, 0.0, 0.5])),
         "times": draw(st.sampled_from(["count", "count", "list"])), "steps": draw(st.integers(1, 4)),
         "kind": draw(st.sampled_from(["relative", "relative", "absolute", "default"])),
         "tol": draw(st.sampled_from([1e-4, 1e-6, 1e-8])),
         "linear": draw(st.sampled_from([None, None, "BlockCG", "BlockGMRES"])),
         "direct": draw(st.booleans()), "verbose": draw(st.booleans()),
         "iterations": draw(st.sampled_from([None, 30, 30, 30, 100, 3])),
         "adaptive": draw(st.sampled_from([None, None, None, "plain", "all"])),
         "nox": draw(st.sampled_from(["newton", "newton", "trust", "cg", "free", "free block"])),
         "extra": draw(st.integers(0, 3)), "seed": draw(gen.seeds)}
    if c["adaptive"] and solver == "qs":
        c["iterations"] = draw(st.sampled_from([2, 3, 4, 30]))
    return c


def strategy(tier):
    return cases(tier)


def stiffness(b, force, u0, free):
    """Derivative of the forces on the free degrees of freedom by central differences."""
    n = b.n
    k = np.nonzero(free.ravel())[0]
    h = 1e-6 * np.min(b.z)
    out = np.empty((len(k), len(k)))
    for c, j in enumerate(k):
        d = np.zeros(3 * n)
        d[j] = h
        fp = force(u0 + d.reshape(n, 3))
        fm = force(u0 - d.reshape(n, 3))
        out[:, c] = ((fp - fm) / (2 * h)).ravel()[k]
    return out


def settings(case, tol_abs):
    q = {}
    solver = {"Verbose": bool(case["verbose"])}
    if case["kind"] == "relative":
        q["Relative Tolerance"] = case["tol"]
    elif case["kind"] == "absolute":
        q["Absolute Tolerance"] = tol_abs
    if case["solver"] == "qs":
        if case["iterations"]:
            q["Maximum Solver Iterations"] = case["iterations"]
        if case["linear"]:
            q["Belos Linear Solver"] = case["linear"]
        if case["direct"]:
            q["Belos Relative Tolerance"] = 1e-9
            solver["Disable Heuristics"] = True
        if case["adaptive"]:
            q["Adaptive Load-Stepping"] = {"Maximum load step reductions in one step": 3, "Maximum total load step reductions": 6,
                                           "Reduce all remaining load steps": case["adaptive"] == "all"}
        solver["QuasiStatic"] = q
    else:
        q["Max Solver Iterations"] = 200
        kind = case["nox"]
        lin = {"Max Iterations": 400, "Tolerance": 1e-9, "Output Frequency": 0}
        if kind == "trust":
            q.update({"Nonlinear Solver": "Inexact Trust Region Based", "Direction": {"Method": "Newton", "Newton": {"Linear Solver": lin}}})
        elif kind == "cg":
            q.update({"Nonlinear Solver": "Line Search Based", "Direction": {"Method": "NonlinearCG", "Nonlinear CG": {
                "Precondition": "On", "Update Jacobian": 1, "Linear Solver": dict(lin, **{"Jacobian Operator": "Have Jacobian", "Preconditioner": "AztecOO"})}},
                "Line Search": {"Method": "NonlinearCG"}})
        else:
            if kind.startswith("free"):
                lin["Jacobian Operator"] = "Matrix-Free"
                lin["Preconditioner"] = "User Defined" if kind == "free block" else "None"
                solver["Peridigm Preconditioner"] = "Block 3x3" if kind == "free block" else "None"
            q.update({"Nonlinear Solver": "Line Search Based", "Direction": {"Method": "Newton", "Newton": {"Linear Solver": lin}},
                      "Line Search": {"Method": "Polynomial"}})
        solver["NOXQuasiStatic"] = q
    return solver, q


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n = len(x)
    law, amp = case["law"], case["amp"]
    vol = gen.volumes(case["cloud"], n, h, spread=0.3)
    nb = min(case["nblocks"], n)
    blk = gen.assign_blocks(x, nb, case["how"], case["seed"])
    if blk is None:
        return Discard("degenerate body")
    hor = case["factor"] * h * case["ratio"] ** np.arange(nb)
    b = ref.Body(x, vol, hor[blk], case["influence"])
    if b.ambiguous or not len(b.z) or np.min(b.z) < 0.25 * h:
        return Discard("degenerate body")
    if law == "corr elastic" and gen.degenerate(x, vol, b.M, 0.02):
        return Discard("degenerate body")
    r = gen.rng(case["seed"], 3)
    K = 10 ** r.uniform(9, 11) * r.uniform(0.5, 1.5, nb)
    nu = r.uniform(0.15, 0.35, nb)
    mu = 3 * K * (1 - 2 * nu) / (2 * (1 + nu))
    pK, pmu = K[blk], mu[blk]
    N = case["steps"]
    mats = {"m%d" % k: scen.material(law, K[k], mu[k], 1000.0, 0.5, h, hor[k], amp, 1.0 / N) for k in range(nb)}
    # loads
    ax = int(np.argmax(np.ptp(x, axis=0)))
    order = np.argsort(x[:, ax], kind="stable")
    m = max(3, n // 4)
    lo, hi = np.sort(order[:m]), np.sort(order[n - m:])
    held = np.zeros((n, 3), bool)
    held[lo] = True
    bc = {"Node Set Lo": gen.node_list(lo), "Node Set Hi": gen.node_list(hi)}
    t0 = case["t0"]
    T = 1.0
    terms = []          # (points, coordinate, rate, cyclic)
    for k in range(3):
        bc["fix %d" % k] = {"Type": "Prescribed Displacement", "Node Set": "Node Set Lo", "Coordinate": "xyz"[k], "Value": "0.0"}
        terms.append((lo, k, 0.0))
    span = max(np.ptp(x[:, ax]), h)
    cyc = case["load"] == "cycle"

    def factor(t):
        return np.sin(4.0 * (t - t0)) if cyc else t - t0
    ft = "sin(4.0*(t-%r))" % t0 if cyc else "(t-%r)" % t0
    if case["load"] != "body":
        comps = [k for k in range(3) if r.random() < 0.6] or [ax]
        for k in comps:
            rate = float(amp * span * r.uniform(0.3, 1) * r.choice([-1, 1]))
            bc["move %d" % k] = {"Type": "Prescribed Displacement", "Node Set": "Node Set Hi", "Coordinate": "xyz"[k],
                                 "Value": "%s*%s" % (gen.num(rate), ft)}
            held[hi, k] = True
            terms.append((hi, k, rate))
    # single degrees of freedom
    mid = np.setdiff1d(np.arange(n), np.concatenate([lo, hi]))
    for q in range(case["extra"]):
        if len(mid) == 0:
            break
        i, k = int(r.choice(mid)), int(r.integers(3))
        if held[i, k]:
            continue
        rate = float(amp * h * r.uniform(-0.5, 0.5)) if r.random() < 0.7 else 0.0
        bc["Node Set S%d" % q] = gen.node_list([i])
        bc["single %d" % q] = {"Type": "Prescribed Displacement", "Node Set": "Node Set S%d" % q, "Coordinate": "xyz"[k],
                               "Value": "%s*%s" % (gen.num(rate), ft)}
        held[i, k] = True
        terms.append((np.array([i]), k, rate))
    body = np.zeros((n, 3))
    if case["load"] in ("body", "both"):
        part = np.sort(r.permutation(n)[:max(1, n // 2)])
        bc["Node Set B"] = gen.node_list(part)
        for k in range(3):
            v = float(np.mean(K) * amp / span * r.uniform(-0.3, 0.3))
            bc["force %d" % k] = {"Type": "Body Force", "Node Set": "Node Set B", "Coordinate": "xyz"[k],
                                  "Value": "%s*%s" % (gen.num(v), ft)}
            body[part, k] = v
    free = ~held
    if not free.any():
        return Discard("nothing is free")

    def force(u):
        y = x + u
        if law == "bond":
            t = ref.bond_based(b, y, pK)
        elif law == "linear":
            t, _ = ref.linear_lps(b, y, pK, pmu)
        else:
            t, _ = ref.lps(b, y, pK, pmu)
        return b.assemble(t) * vol[:, None]

    Ks = stiffness(b, force, np.zeros((n, 3)), free)
    ev = np.linalg.eigvalsh(-(Ks + Ks.T) / 2)
    if ev[0] < 1e-4 * ev[-1]:
        return Discard("the problem is not well posed")
    known = law in ("elastic", "bond", "linear")
    fscale = float(np.mean(K) * amp * h ** 2)
    tol_abs = case["tol"] * fscale
    kind = case["kind"]
    # without prescribed motion there are no reactions at the beginning to refer to
    if (not known or case["load"] == "body") and kind != "absolute":
        case = dict(case, kind="absolute")
        kind = "absolute"
    solver, q = settings(case, tol_abs)
    times = t0 + T * np.arange(N + 1) / N
    if case["times"] == "count":
        solver.update({"Initial Time": t0, "Final Time": t0 + T})
        q["Number of Load Steps"] = N
    else:
        cut = np.sort(r.uniform(0.05, 0.95, N - 1)) if N > 1 else np.zeros(0)
        if N > 1 and np.min(np.diff(np.concatenate([[0], cut, [1]]))) < 0.02:
            cut = np.arange(1, N) / N
        times = np.array([float("%.6f" % v) for v in t0 + T * np.concatenate([[0], cut, [1]])])
        q["Time Steps"] = " ".join("%.6f" % v for v in times)
        solver.update({"Initial Time": t0, "Final Time": t0 + T})
    disc = {} if case["influence"] == "One" else {"Influence Function": case["influence"]}
    blocks = {"b%d" % k: {"Block Names": "block_%d" % (k + 1), "Material": "m%d" % k, "Horizon": float(hor[k])} for k in range(nb)}
    p, f = gen.text_deck(x, vol, blk + 1, blocks, mats, ["Displacement", "Force_Density", "Velocity"], solver=solver, bc=bc, disc=disc)
    tags = ["law " + law, "solver " + (case["solver"] if case["solver"] == "qs" else "nox " + case["nox"]), "np=%d" % case["np"],
            "tolerance " + kind, "amp %g" % amp, "load " + case["load"]]
    easy = (known and amp <= 1e-3 and case["solver"] == "qs" and case["iterations"] in (30, 100)
            and (kind == "default" or case["tol"] >= 1e-6) and amp >= 1e-4)
    try:
        o = runner.simulate(p, f, case["np"], points=n)
    except runner.Broken as e:
        s = e.out
        if "NOX solver failed" in s:
            return Discard("the solver gave up")
        if not easy and "NaN returned by force evaluation" in s:
            return Discard("the solver gave up")
        raise
    U, F = exo.vec(o, "Displacement"), exo.vec(o, "Force_Density")
    if not (np.isfinite(U).all() and np.isfinite(F).all()):
        return Bad("a result is not a number")
    if case["adaptive"] and case["solver"] == "qs":
        # when all remaining steps are reduced the last one may pass the end
        over = o.times[-1] - o.times[-2] if case["adaptive"] == "all" and o.nt > 1 else 0.0
        if np.any(np.diff(o.times) <= 0) or abs(o.times[0] - t0) > 1e-9 or o.times[-1] > times[-1] + over + 1e-6:
            return Bad("times %s of the accepted steps do not advance from %r to %r" % (o.times.tolist(), t0, float(times[-1])))
        if case["adaptive"] == "plain" and not any(abs(o.times[-1] - t) < 1e-9 for t in times) and "Error" not in o.stdout:
            return Bad("the last accepted time %r is none of the requested %s" % (float(o.times[-1]), times.tolist()))
    elif o.nt > N + 1 or not np.allclose(o.times, times[:o.nt], rtol=1e-9, atol=1e-9):
        return Bad("times %s, requested %s" % (o.times.tolist(), times.tolist()))
    if easy and o.times[-1] < times[-1] - 1e-9:
        return Bad("a small strain elastic problem with condition number %.3g was not solved: last time %r of %s"
                   % (ev[-1] / ev[0], float(o.times[-1]), times.tolist()))
    accepts = 100.0 if "Accepting current solution" in o.stdout else 1.0
    tolerance = tol_abs if kind == "absolute" else (1e-6 if kind == "default" else case["tol"])
    eps = 4e-15 * (np.abs(x).max() + h)
    floor = 50 * eps * (np.max(K) + np.max(mu)) * np.max(vol) / h ** 2 * np.sqrt(n)
    moved = False
    for k in range(1, o.nt):
        g = factor(o.times[k])
        u = U[k]
        for pts, c, rate in terms:
            d = np.abs(u[pts, c] - rate * g)
            if d.max() > 1e-9 * amp * span + 1e-13 * np.abs(u).max():
                i = int(pts[np.argmax(d)])
                return Bad("step %d: displacement %s of point %d is %r, prescribed is %r" % (k, "xyz"[c], i + 1, float(u[i, c]), float(rate * g)))
        B = body * g * vol[:, None]
        fr = F[k] * vol[:, None]
        if known:
            # reactions with the prescribed increments applied and everything else at rest
            fr = force(u)
            d = np.abs(fr - F[k] * vol[:, None])
            if d.max() > 1e-6 * np.abs(fr).max() + floor:
                i = int(np.argmax(d.max(1)))
                return Bad("step %d: the reported force density of point %d is not that of the reported displacements" % (k, i + 1))
            crit = tolerance
            if kind != "absolute":
                us = np.where(held, u, U[k - 1])
                crit = tolerance * np.linalg.norm(np.where(held, force(us), 0.0))
        else:
            crit = tolerance
        R = np.where(held, 0.0, fr + B)
        nrm = np.linalg.norm(R)
        if nrm > accepts * crit * 1.001 + floor:
            i, c = np.unravel_index(np.argmax(np.abs(R)), R.shape)
            return Bad("step %d of %s: unbalanced forces of norm %.6g on free degrees of freedom, the tolerance is %.6g%s; largest "
                       "at point %d, %s" % (k, case["solver"], nrm, crit, " (times 100)" if accepts > 1 else "", i + 1, "xyz"[c]))
        if known and amp <= 1e-4:
            kk = free.ravel()
            ul = np.where(held, u, 0.0)
            rhs = -(force(ul) + B).ravel()[kk]
            w = ul.ravel().copy()
            w[kk] = np.linalg.solve(Ks, rhs)
            w = w.reshape(n, 3)
            left = np.linalg.norm(np.where(held, 0.0, force(w) + B))
            bound = 2 * (left + accepts * crit + floor) / ev[0] + 1e-5 * np.abs(w).max()
            d = np.linalg.norm(w - u)
            if d > bound:
                return Bad("step %d: displacements differ from the linear solution by %.6g, bound %.6g" % (k, d, bound))
        if np.abs(np.where(held, 0.0, u)).max() > 1e-12 * h:
            moved = True
    if o.nt == 1:
        return Discard("no step was accepted")
    if "Cutting the load step" in o.stdout:
        tags.append("reduced step")
    if accepts > 1:
        tags.append("accepted late")
    if o.times[-1] < times[-1] - 1e-9:
        tags.append("stopped early")
    return Ok(case_key(case) if moved else None, tags)
