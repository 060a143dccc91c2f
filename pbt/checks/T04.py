"""Heat and fluid diffusion follow the nonlocal flux law."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case compares the flux of every point in every reported step with the law, and checks the balance of the points that are "
        "not prescribed. It is non-trivial if the field is not uniform.")
TECHNIQUE = ("property-based testing against an independent flux law; balance of free points, prescribed values, conservation and "
             "vanishing flux of uniform fields")
LEVEL_NOTE = ("Random clouds of 8 to 60 points in 1 to 3 blocks of different coefficient and horizon; prescribed fields in space and "
              "time on some or all points; heat with the implicit diffusion solver, fluid pressure with the quasi-static solver of "
              "the coupled material, with damage and temperature dependent viscosity; 1 to 4 processes.")
ASSUMPTIONS = ["values at the initial time are those of the initial conditions; flux is reported from the first step on",
               "the solver may accept a hundred times the tolerance if it says so"]
QUICK = dict(examples=2000, cap_s=21)
THOROUGH = dict(examples=40000, cap_s=1800)


@st.composite
def cases(draw, tier, processes=(1, 1, 1, 2, 3, 4)):
    np_ = draw(st.sampled_from(processes))
    kind = draw(st.sampled_from(["heat", "heat", "fluid"]))
    fluid = kind == "fluid"
    held = draw(st.sampled_from(["all", "some", "some"]))
    low = max(8 * np_, 8 if fluid else 2)
    cloud = draw(gen.clouds(min_points=low, max_points=max(low, 60 if not fluid else 40), min_side=2 if fluid else 1, max_side=5,
                            kinds=("lattice", "lattice", "random") if fluid and held == "some" else
                            ("lattice", "lattice", "random", "clusters", "plane", "line") if not fluid else ("lattice", "random", "clusters"),
                            scales=(1.0, 1e-2, 1e2), offsets=(0.0, 0.0, 1.0)))
    crack = held == "all" and draw(st.booleans())
    return {"np": np_, "kind": kind, "held": held, "cloud": cloud, "nblocks": draw(st.sampled_from([1, 1, 2, 3])),
            "how": draw(st.sampled_from(["random", "slabs"])),
            "factor": draw(st.sampled_from([1.8, 2.3, 3.1])), "ratio": draw(st.sampled_from([1.0, 1.0, 1.3])),
            "field": draw(st.sampled_from(["waves", "waves", "linear", "uniform", "spots"])), "base": draw(st.sampled_from([0.0, 1.0, 30.0])),
            "t0": draw(st.sampled_from([0.0, 0.0, 0.5])), "steps": draw(st.integers(1, 3)), "times": draw(st.sampled_from(["count", "list"])),
            "tolerance": draw(st.sampled_from(["default", "relative", "absolute"])), "tol": draw(st.sampled_from([1e-5, 1e-8])),
            "linear": draw(st.sampled_from([None, "BlockCG", "BlockGMRES"])), "prior": draw(st.booleans()),
            "amp": draw(st.sampled_from([1e-4, 1e-3])), "crack": crack,
            "warm": draw(st.booleans()), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def field(case, x, h, r):
    """Expression in x, y, z and t of the prescribed values, of unit size, as base plus shape times (1 + rate (t - t0))."""
    L = max(float(np.ptp(x, axis=0).max()), h)
    base = case["base"]
    rate = float(r.uniform(-0.5, 2.0))
    if case["field"] == "uniform":
        shape = gen.num(r.uniform(-1, 1))
    elif case["field"] == "linear":
        g = r.uniform(-1, 1, 3) / L
        shape = "(%s*x + %s*y + %s*z)" % tuple(gen.num(v) for v in g)
    elif case["field"] == "waves":
        g = r.uniform(-3, 3, 3) / L
        shape = "sin(%s*x + %s*y + %s*z + %s)" % (tuple(gen.num(v) for v in g) + (gen.num(r.uniform(0, 3)),))
    else:
        c = x[int(r.integers(len(x)))]
        shape = "exp(%s*(%s))" % (gen.num(-1 / (1.5 * h) ** 2), " + ".join("(%s - %s)*(%s - %s)" % (a, gen.num(v), a, gen.num(v)) for a, v in zip("xyz", c)))
    return "%s + (%s)*(1.0 + (t - %s)*%s)" % (gen.num(base), shape, gen.num(case["t0"]), gen.num(rate))


def reaches(M, held):
    ok = held.copy()
    while True:
        new = ok | (M & ok[None, :]).any(1)
        if (new == ok).all():
            return ok.all()
        ok = new


def evaluate(case):
    return heat(case) if case["kind"] == "heat" else fluid(case)


def setup(case):
    x, h = gen.points(case["cloud"])
    n = len(x)
    vol = gen.volumes(case["cloud"], n, h, spread=0.3)
    nb = min(case["nblocks"], n)
    blk = gen.assign_blocks(x, nb, case["how"], case["seed"])
    if blk is None:
        return None
    hor = case["factor"] * h * case["ratio"] ** np.arange(nb)
    b = ref.Body(x, vol, hor[blk], "One")
    # an isolated point is announced by the program as a problem for implicit solvers
    if b.ambiguous or not len(b.z) or np.min(b.z) < 0.2 * h or b.M.sum(1).min() == 0:
        return None
    return x, h, n, vol, nb, blk, hor, b


def steps(case, q, r):
    t0, N = case["t0"], case["steps"]
    times = t0 + np.arange(N + 1) / N
    solver = {"Initial Time": t0, "Final Time": t0 + 1.0}
    if case["times"] == "count":
        q["Number of Load Steps"] = N
    else:
        times = np.array([float("%.6f" % v) for v in t0 + np.linspace(0, 1, N + 1) ** 1.5])
        q["Time Steps"] = " ".join("%.6f" % v for v in times)
    return times, solver


def held_points(case, n, x, r):
    if case["held"] == "all":
        return np.ones(n, bool)
    held = np.zeros(n, bool)
    if r.random() < 0.5:
        held[r.permutation(n)[:max(1, n // 3)]] = True
    else:
        o = np.argsort(x[:, 0], kind="stable")
        m = max(1, n // 5)
        held[o[:m]] = held[o[n - m:]] = True
    return held


def sets(bc, held, name, r):
    """Cover the held points by one or two sets."""
    idx = np.nonzero(held)[0]
    cut = int(r.integers(1, len(idx))) if len(idx) > 1 and r.random() < 0.5 else len(idx)
    out = []
    for k, part in enumerate((idx[:cut], idx[cut:])):
        if len(part):
            bc["Node Set %s%d" % (name, k)] = gen.node_list(part)
            out.append("Node Set %s%d" % (name, k))
    return out


def heat(case):
    s = setup(case)
    if s is None:
        return Discard("degenerate body")
    x, h, n, vol, nb, blk, hor, b = s
    r = gen.rng(case["seed"], 3)
    coef = 10 ** r.uniform(-2, 2) * r.uniform(0.5, 2.0, nb)
    held = held_points(case, n, x, r)
    if not reaches(b.M, held):
        return Discard("points without connection to a prescribed value")
    e = field(case, x, h, r)
    bc = gen.all_points(n)
    for k, name in enumerate(sets(bc, held, "T", r)):
        bc["held %d" % k] = {"Type": "Prescribed Temperature", "Node Set": name, "Value": e}
    prior = "0.0"
    if case["prior"]:
        prior = "%s + %s*x" % (gen.num(case["base"]), gen.num(0.3 / max(np.ptp(x[:, 0]), h))) if case["field"] != "uniform" else e.replace("t -", "0.0 -")
        bc["initial"] = {"Type": "Initial Temperature", "Node Set": "Node Set All", "Value": prior}
    kc = coef[blk][b.I] * 6 / (np.pi * b.hor[b.I] ** 4 * b.z)

    def flux(T):
        return b.sum_bonds(kc * (T[b.J] - T[b.I]) * b.VJ)

    size = case["base"] + 3.0
    scale = float(b.sum_bonds(kc * b.VJ).max()) * size
    q = {"Maximum Solver Iterations": 20}
    tol = 1e-6
    if case["tolerance"] == "relative":
        tol = q["Relative Tolerance"] = case["tol"]
    elif case["tolerance"] == "absolute":
        tol = q["Absolute Tolerance"] = float(case["tol"] * scale * np.mean(vol))
    symmetric = nb == 1 or case["linear"] != "BlockGMRES" and np.ptp(coef) == 0 and case["ratio"] == 1
    if not symmetric or case["linear"]:
        q["Belos Linear Solver"] = case["linear"] if symmetric else "BlockGMRES"
    times, solver = steps(case, q, r)
    solver.update({"Solve For Displacement": False, "Solve For Temperature": True, "Solve For Pressure": False, "ImplicitDiffusion": q})
    mats = {"m%d" % k: {"Material Model": "Diffusion", "Coefficient": float(coef[k])} for k in range(nb)}
    blocks = {"b%d" % k: {"Block Names": "block_%d" % (k + 1), "Material": "m%d" % k, "Horizon": float(hor[k])} for k in range(nb)}
    p, f = gen.text_deck(x, vol, blk + 1, blocks, mats, ["Temperature", "Flux_Divergence"], solver=solver, bc=bc)
    o = runner.simulate(p, f, case["np"], points=n)
    if o.nt > len(times) or not np.allclose(o.times, times[:o.nt], rtol=1e-9, atol=1e-9):
        return Bad("times %s, requested %s" % (o.times.tolist(), times.tolist()))
    if o.nt < len(times) and "Belos linear solver failed to converge" in o.stdout and case["np"] > 1:
        return Discard("not solved, as reported")
    if o.nt < len(times):
        return Bad("the steady heat problem was not solved: last time %r of %s" % (float(o.times[-1]), times.tolist()))
    T, Q = o.nodal["Temperature"], o.nodal["Flux_Divergence"]
    if not (np.isfinite(T).all() and np.isfinite(Q).all()):
        return Bad("a result is not a number")
    accepts = 100.0 if "Accepting current solution" in o.stdout else 1.0
    floor = 1e-13 * scale
    if case["prior"]:
        want = gen.evaluate_expression(prior, x)
        if np.abs(T[0] - want).max() > 1e-10 * size:
            return Bad("the initial temperature is not the given one")
    for k in range(1, o.nt):
        want = gen.evaluate_expression(e, x, times[k])
        d = np.abs(T[k] - want)[held]
        if d.max() > 1e-10 * size:
            i = int(np.nonzero(held)[0][np.argmax(d)])
            return Bad("step %d: temperature of point %d is %r, prescribed is %r" % (k, i + 1, float(T[k][i]), float(want[i])))
        fx = flux(T[k])
        d = np.abs(Q[k] - fx)
        if d.max() > 1e-9 * np.abs(fx).max() + floor:
            i = int(np.argmax(d))
            return Bad("step %d: flux divergence of point %d is %r, the law gives %r" % (k, i + 1, float(Q[k][i]), float(fx[i])))
        if case["field"] == "uniform" and held.all() and np.abs(Q[k]).max() > floor:
            return Bad("step %d: a uniform temperature gives flux %r" % (k, float(np.abs(Q[k]).max())))
        if nb == 1 and abs(np.sum(Q[k] * vol)) > 1e-11 * scale * np.sum(vol):
            return Bad("step %d: the total content changes by %r" % (k, float(np.sum(Q[k] * vol))))
        start = np.where(held, T[k], T[k - 1])
        crit = tol if case["tolerance"] == "absolute" else tol * np.linalg.norm(np.where(held, flux(start) * vol, 0))
        R = np.where(held, 0.0, Q[k] * vol)
        if np.linalg.norm(R) > 1.001 * accepts * crit + np.sqrt(n) * floor * vol.max():
            i = int(np.argmax(np.abs(R)))
            return Bad("step %d: the free points exchange heat of norm %.6g, the tolerance is %.6g; largest at point %d"
                       % (k, np.linalg.norm(R), crit, i + 1))
    tags = ["heat", "held " + case["held"], "field " + case["field"], "np=%d" % case["np"]]
    return Ok(None if case["field"] == "uniform" else case_key(case), tags)


def fluid(case):
    s = setup(case)
    if s is None:
        return Discard("degenerate body")
    x, h, n, vol, nb, blk, hor, b = s
    r = gen.rng(case["seed"], 3)
    amp, t0 = case["amp"], case["t0"]
    K = 10 ** r.uniform(6, 9) * r.uniform(0.5, 1.5, nb)
    nu = r.uniform(0.15, 0.35, nb)
    mu = 3 * K * (1 - 2 * nu) / (2 * (1 + nu))
    P = float(np.mean(K) * amp)
    perm, maxp = r.uniform(0.5, 2.0, nb) / h ** 2, r.uniform(0.5, 2.0, nb)
    rho, visc = 10 ** r.uniform(-1, 1, nb), r.uniform(0.5, 2, nb)
    visc = rho * visc / h ** 2
    infl, alp = r.uniform(0.05, 0.9, nb), r.uniform(0.2, 3.0, nb)
    warm = case["warm"]
    expand, reynolds = (1e-5 * r.uniform(0.5, 2), r.uniform(-0.01, 0.01, nb)) if warm else (0.0, np.zeros(nb))
    # the held values
    held_p = held_points(case, n, x, r)
    held_u = np.zeros((n, 3), bool)
    ax = int(np.argmax(np.ptp(x, axis=0)))
    order = np.argsort(x[:, ax], kind="stable")
    if case["held"] == "all":
        held_u[:] = True
    else:
        held_u[order[:max(3, n // 3)]] = True
    if not reaches(b.M, held_p):
        return Discard("points without connection to a prescribed value")
    bc = gen.all_points(n)
    e = "%s*(%s)" % (gen.num(P), field(case, x, h, r))
    for k, name in enumerate(sets(bc, held_p, "P", r)):
        bc["pressure %d" % k] = {"Type": "Prescribed Fluid Pressure U", "Node Set": name, "Coordinate": "x", "Value": e}
    # prescribed pressures are applied by increments, so they start from the same values; initial values are taken at time zero
    e0 = e.replace("(t - ", "(%s - " % gen.num(t0))
    bc["initial"] = {"Type": "Initial Fluid Pressure U", "Node Set": "Node Set All", "Coordinate": "x", "Value": e0}
    moved = np.nonzero(held_u[:, 0])[0]
    bc["Node Set U"] = gen.node_list(moved)
    shape = gen.motion_expressions({"kind": "waves", "amp": amp, "seed": case["seed"]}, x, h)
    W = np.zeros((n, 3))
    for k in range(3):
        bc["move %d" % k] = {"Type": "Prescribed Displacement", "Node Set": "Node Set U", "Coordinate": "xyz"[k],
                             "Value": "(%s)*(t - %s)" % (shape[k], gen.num(t0))}
        W[:, k] = gen.evaluate_expression(shape[k], x)
    dT = np.zeros(n)
    if warm:
        # the change of temperature counts from time zero
        te = "(20.0 + 10.0*sin(%s*x))*t" % gen.num(2 / h)
        bc["warm"] = {"Type": "Prescribed Temperature", "Node Set": "Node Set All", "Value": te}
    damage, dmg = None, np.zeros(len(b.I))
    block = {}
    if case["crack"]:
        c = x.mean(0)
        big = 4 * max(np.ptp(x, axis=0).max(), h)
        nx = np.zeros(3)
        nx[ax] = 1.0
        bx = np.roll(nx, 1)
        lo = c - big / 2 * (bx + np.cross(bx, nx)) + 0.013 * h * nx
        pl = {"Type": "Rectangular_Plane", "Normal_X": nx[0], "Normal_Y": nx[1], "Normal_Z": nx[2],
              "Lower_Left_Corner_X": lo[0], "Lower_Left_Corner_Y": lo[1], "Lower_Left_Corner_Z": lo[2],
              "Bottom_Unit_Vector_X": bx[0], "Bottom_Unit_Vector_Y": bx[1], "Bottom_Unit_Vector_Z": bx[2],
              "Bottom_Length": big, "Side_Length": big}
        damage = {"cracks": {"Damage Model": "Initial Damage", "Bond Filters": {"c": {k: (float(v) if not isinstance(v, str) else v) for k, v in pl.items()}}}}
        block["Damage Model"] = "cracks"
        side = (x - lo) @ nx
        if np.abs(side).min() < 1e-6 * h:
            return Discard("degenerate body")
        dmg = (side[b.I] * side[b.J] < 0).astype(float)
    mats = {}
    for k in range(nb):
        m = {"Material Model": "Multiphysics Elastic", "Density": 1000.0, "Bulk Modulus": float(K[k]), "Shear Modulus": float(mu[k]),
             "Multiphysics": 1, "Permeability": float(perm[k]), "Fluid density": float(rho[k]), "Fluid dynamic viscosity": float(visc[k]),
             "Fluid compressibility": 1e-3, "Fluid Reynolds viscosity temperature effect": float(reynolds[k]), "Fluid linear thermal expansion": 0.0,
             "Permeability curve inflection damage": float(infl[k]), "Max permeability": float(maxp[k]), "Permeability alpha": float(alp[k])}
        if warm:
            m["Thermal Expansion Coefficient"] = float(expand)
        mats["Multiphysics %d" % k] = m
    blocks = {"b%d" % k: dict(block, **{"Block Names": "block_%d" % (k + 1), "Material": "Multiphysics %d" % k, "Horizon": float(hor[k])})
              for k in range(nb)}
    fs = float(np.mean(K) * amp / h)
    tol = float(case["tol"] * fs * h ** 3)
    q = {"Absolute Tolerance": tol, "Maximum Solver Iterations": 30, "Belos Linear Solver": "BlockGMRES"}
    times, solver = steps(case, q, r)
    solver.update({"Verbose": False, "Solve For Displacement": True, "Solve For Pressure": True, "QuasiStatic": q})
    p, f = gen.text_deck(x, vol, blk + 1, blocks, mats, ["Displacement", "Fluid_Pressure_U", "Fluid_Pressure_Y", "Flux_Density", "Force_Density"],
                         solver=solver, bc=bc, extra={"Multiphysics": 1}, damage=damage)
    o = runner.simulate(p, f, case["np"], points=n)
    if o.nt > len(times) or not np.allclose(o.times, times[:o.nt], rtol=1e-9, atol=1e-9):
        return Bad("times %s, requested %s" % (o.times.tolist(), times.tolist()))
    if o.nt < len(times):
        if case["held"] == "all":
            return Bad("a problem without unknowns was not solved: last time %r of %s" % (float(o.times[-1]), times.tolist()))
        return Discard("not solved, as reported")
    U, F = exo.vec(o, "Displacement"), exo.vec(o, "Force_Density")
    PU, PY, Q = o.nodal["Fluid_Pressure_U"], o.nodal["Fluid_Pressure_Y"], o.nodal["Flux_Density"]
    if not all(np.isfinite(a).all() for a in (U, F, PU, PY, Q)):
        return Bad("a result is not a number")
    accepts = 100.0 if "Accepting current solution" in o.stdout else 1.0
    mw = b.weighted_volume()
    B = blk[b.I]
    size = P * (case["base"] + 3)
    for k in range(1, o.nt):
        if np.abs(PU[k] - PY[k]).max() > 1e-11 * size:
            return Bad("step %d: the two reported pressures differ" % k)
        want = gen.evaluate_expression(e, x, times[k])
        d = np.abs(PY[k] - want)[held_p]
        if d.max() > 1e-9 * size:
            i = int(np.nonzero(held_p)[0][np.argmax(d)])
            return Bad("step %d: pressure of point %d is %r, prescribed is %r" % (k, i + 1, float(PY[k][i]), float(want[i])))
        d = np.abs(np.where(held_u, U[k] - W * (times[k] - t0), 0)).max()
        if d > 1e-9 * amp * max(h, np.ptp(x)):
            return Bad("step %d: a prescribed displacement is missed by %r" % (k, float(d)))
        if warm:
            dT = gen.evaluate_expression(te, x, times[k])
        y = x + U[k]
        Y, rr = b.bond(y)
        k0 = 0.25 * perm[B] * rr ** 2
        ke = k0 + (maxp[B] - k0) / (1 + np.exp(alp[B] * (dmg - infl[B])))
        kk = rho[B] / (visc[B] * np.exp(reynolds[B] * dT[b.I])) * 4 / (np.pi * b.hor[b.I] ** 2) * ke / rr ** 4
        qb = kk * (PY[k][b.J] - PY[k][b.I])
        fl = np.zeros(n)
        np.add.at(fl, b.I, qb * b.VJ)
        np.add.at(fl, b.J, -qb * b.VI)
        mag = np.zeros(n)
        np.add.at(mag, b.I, kk * b.VJ)
        np.add.at(mag, b.J, kk * b.VI)
        floor = 1e-13 * mag.max() * size
        d = np.abs(Q[k] - fl)
        if d.max() > 1e-9 * np.abs(fl).max() + floor:
            i = int(np.argmax(d))
            return Bad("step %d: flux of point %d is %r, the law gives %r" % (k, i + 1, float(Q[k][i]), float(fl[i])))
        if abs(np.sum(Q[k] * vol)) > 10 * floor * np.sum(vol):
            return Bad("step %d: the total content changes by %r" % (k, float(np.sum(Q[k] * vol))))
        t, _ = ref.lps(b, y, K[blk], mu[blk], dmg, expand * dT)
        tp = (1 - dmg) * 3 * b.w / mw[b.I] * PY[k][b.I] * b.z
        t = t - tp[:, None] * Y / rr[:, None]
        fr = b.assemble(t)
        ffloor = 1e-12 * b.magnitude(t).max() + 2e-13 * (np.abs(x).max() + h) * np.max(K + mu) / h ** 2
        d = np.abs(F[k] - fr)
        if d.max() > 1e-9 * np.abs(fr).max() + ffloor:
            i = int(np.argmax(d.max(1)))
            return Bad("step %d: force density of point %d is %s, the law gives %s" % (k, i + 1, F[k][i].tolist(), fr[i].tolist()))
        R = np.concatenate([np.where(held_p, 0, fl * vol), np.where(held_u, 0, fr * vol[:, None]).ravel()])
        if np.linalg.norm(R) > 1.001 * accepts * tol + 2 * np.sqrt(n) * (floor + ffloor) * vol.max():
            return Bad("step %d: free points are not in balance: norm %.6g, the tolerance is %.6g" % (k, np.linalg.norm(R), tol))
    tags = ["fluid", "held " + case["held"], "field " + case["field"], "np=%d" % case["np"]]
    tags += ["crack"] * bool(case["crack"]) + ["warm"] * bool(warm)
    return Ok(None if case["field"] == "uniform" else case_key(case), tags)
