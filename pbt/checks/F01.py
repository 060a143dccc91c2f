"""Bonds break at the criterion and stay broken."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case replays the bonds of a body over a random driven or free motion. It is non-trivial if some but not all bonds "
        "break and, in driven motions, some broken bond is shorter than critical again later.")
TECHNIQUE = "model-based property testing: bond histories of generated motions replayed in an independent model"
LEVEL_NOTE = ("Random bodies of up to 48 points, up to 3 blocks with constant, time-dependent or no critical stretch, thermal "
              "strains, loading and unloading histories of up to 18 steps, 1 to 3 processes. Damage and forces of every step "
              "are compared.")
ASSUMPTIONS = ["cases in which a stretch ties with the critical stretch are skipped",
               "no bond is beyond critical in the initial state (known finding)"]
QUICK = dict(examples=2400, cap_s=20)
THOROUGH = dict(examples=50000, cap_s=1800)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 2, 3]))
    nb = draw(st.sampled_from([1, 2, 3]))
    mode = draw(st.sampled_from(["driven", "driven", "free", "static"]))
    law = draw(st.sampled_from(["elastic", "elastic", "bond", "linear", "plastic"]))
    kinds = draw(st.lists(st.sampled_from(["constant", "constant", "time", "none"]), min_size=nb, max_size=nb))
    if mode == "static":
        if law in ("linear", "plastic"):
            law = "elastic"
        kinds = ["interface"] * nb if draw(st.booleans()) else [k if k != "time" else "constant" for k in kinds]
    return {"np": np_, "mode": mode, "law": law,
            "cloud": draw(gen.clouds(min_points=max(nb, 8 * np_ if np_ > 1 else 2), max_points=48, max_side=4,
                                     kinds=("lattice", "lattice", "random", "clusters"), scales=(1.0, 1.0, 1e-2),
                                     offsets=(0.0, 0.0, 1.0))),
            "kinds": kinds,
            "factor": draw(st.sampled_from([1.2, 1.8, 2.3])) if kinds[0] != "interface" else 2.3, "ratio": draw(st.sampled_from([1.0, 1.0, 1.4])),
            "amp": draw(st.sampled_from([1e-3, 1e-2, 0.1])) if law != "linear" else 1e-3,
            "level": draw(st.sampled_from([0.1, 0.4, 0.8])),
            "path": draw(st.lists(st.floats(-1, 1).map(lambda v: round(v, 3)), min_size=2, max_size=6)),
            "per": draw(st.integers(1, 3)), "thermal": draw(st.sampled_from([False, False, True])),
            "seed": draw(gen.seeds), "initial": False}


def strategy(tier):
    return cases(tier)


FIXED = [{"np": 1, "mode": "free", "law": "elastic",
          "cloud": {"kind": "lattice", "seed": 1, "scale": 1.0, "offset": 0.0, "dims": [3, 2, 2], "jitter": 0.1},
          "kinds": ["constant"], "factor": 1.8, "ratio": 1.0, "amp": 0.01, "level": 0.4, "path": [1.0, 0.0], "per": 2,
          "thermal": False, "seed": 5, "initial": True}]


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n = len(x)
    nb = len(case["kinds"])
    vol = gen.volumes(case["cloud"], n, h)
    if nb > n:
        return Discard("too few points for the blocks")
    blk = gen.assign_blocks(x, nb, "random", case["cloud"]["seed"])
    if blk is None:
        return Discard("too few points for the blocks")
    r = gen.rng(case["seed"])
    K = 10 ** r.uniform(9, 11) * r.uniform(0.7, 1.4, nb)
    nu = r.uniform(0.1, 0.4, nb)
    mu = 3 * K * (1 - 2 * nu) / (2 * (1 + nu))
    rho = 5000.0
    law, amp = case["law"], case["amp"]
    hb = case["factor"] * h * case["ratio"] ** np.arange(nb)
    b = ref.Body(x, vol, hb[blk])
    if b.ambiguous or len(b.I) == 0:
        return Discard("no bonds or a tie")
    dt = float(0.2 * ref.critical_time_step(b, K[blk], rho))
    g = gen.history(case["path"], case["per"])
    N = len(g)
    static = case["mode"] == "static"
    if static:
        dt = 1.0
    T = N * dt
    thermal = case["thermal"] and law == "elastic" and not static
    alpha = amp / 40
    temp = "t*%s*(1.0 + 0.5*sin(2.0*x/%s))" % (gen.num(20 / T), gen.num(h))
    mats, blocks, damage, crit = {}, {}, {}, []
    for k in range(nb):
        m = {"Density": rho, "Bulk Modulus": float(K[k]), "Shear Modulus": float(mu[k])}
        if law == "bond":
            m = {"Density": rho, "Bulk Modulus": float(K[k])}
        m["Material Model"] = {"elastic": "Elastic", "bond": "Elastic Bond Based", "linear": "Linear LPS Partial Volume",
                               "plastic": "Elastic Plastic"}[law]
        ys = 2 * mu.mean() * amp * 0.5
        if law == "plastic":
            m["Yield Stress"] = float(ys)
        if thermal:
            m["Thermal Expansion Coefficient"] = float(alpha)
        mats["m%d" % k] = m
        blocks["b%d" % k] = {"Block Names": "block_%d" % (k + 1), "Material": "m%d" % k, "Horizon": float(hb[k])}
        s0 = float(amp * case["level"] * r.uniform(0.5, 1.5))
        kind = case["kinds"][k]
        if kind == "none":
            crit.append(None)
            continue
        if kind == "constant":
            damage["d%d" % k] = {"Damage Model": "Critical Stretch", "Critical Stretch": s0}
            crit.append(gen.num(s0))
        elif kind == "interface":
            damage["d%d" % k] = {"Damage Model": "Interface Aware", "Critical Stretch": s0}
            crit.append(gen.num(s0))
        else:
            e = "%s*(1.0 + %s*t)" % (gen.num(s0), gen.num(r.uniform(-0.8, 2) / T))
            damage["d%d" % k] = {"Damage Model": "Time Dependent Critical Stretch", "Time Dependent Critical Stretch": e}
            crit.append(e)
        if thermal:
            damage["d%d" % k]["Thermal Expansion Coefficient"] = float(alpha)
        blocks["b%d" % k]["Damage Model"] = "d%d" % k
    shape = gen.motion_expressions({"kind": "waves", "amp": amp, "seed": case["seed"]}, x, h)
    bc = dict(gen.all_points(n))
    f = gen.factor_expression(g, dt)
    for k in range(3):
        e = {"Node Set": "Node Set All", "Coordinate": "xyz"[k]}
        if case["initial"]:
            # first beyond critical, back at rest in the first step
            bc["i%d" % k] = {"Type": "Initial Displacement", **e, "Value": shape[k]}
            e.update({"Type": "Prescribed Displacement", "Value": "(%s)*(1.0-t*%s)" % (shape[k], gen.num(1 / dt))})
        elif case["mode"] in ("driven", "static"):
            e.update({"Type": "Prescribed Displacement", "Value": f + "value = value*(%s)" % shape[k]})
        else:
            e.update({"Type": "Initial Velocity", "Value": "(%s)*%s" % (shape[k], gen.num(2 / T))})
        bc["u%d" % k] = e
    if thermal:
        bc["temp"] = {"Type": "Prescribed Temperature", "Node Set": "Node Set All", "Value": temp}
    solver = {"Verbose": False, "Initial Time": 0.0, "Final Time": float((N + 0.5) * dt), "Verlet": {"Fixed dt": dt}}
    if static:
        del solver["Verlet"]
        solver["Final Time"] = float(N * dt)
        solver["QuasiStatic"] = {"Number of Load Steps": N, "Absolute Tolerance": 1.0, "Maximum Solver Iterations": 5}
    out = ["Displacement", "Force_Density", "Damage"]
    p, files = gen.text_deck(x, vol, blk + 1, blocks, mats, out, solver=solver, bc=bc, damage=damage or None)
    o = runner.simulate(p, files, case["np"], points=n, steps=N + 1)
    d = np.zeros(len(b.z))
    count = b.sum_bonds(np.ones(len(b.z)))
    plastic = ref.Plastic(b, K[blk], mu[blk], ys) if law == "plastic" else None
    eps = 1e-14 * (np.abs(x).max() + h) / h
    m = b.weighted_volume()
    stiff = np.max(b.magnitude(((9 * K[blk] + 15 * mu[blk])[b.I] / m[b.I] * h)[:, None] * [[1, 0, 0]])) * h
    scale, again = 0.0, False
    broken_step = np.zeros(n)
    for t in range(o.nt):
        y = x + exo.vec(o, "Displacement", t)
        fd = exo.vec(o, "Force_Density", t)
        time = float(o.times[t])
        th = alpha * gen.evaluate_expression(temp, x, time) if thermal else np.zeros(n)
        Y, rr = b.bond(y)
        s = (rr - b.z) / b.z - th[b.I]
        sc = np.full(n, np.inf)
        for k in range(nb):
            if crit[k] is not None:
                sc[blk == k] = gen.evaluate_expression(crit[k], x[:1], time)[0]
        if "interface" in case["kinds"]:
            # the weaker side decides
            over = s - np.minimum(sc[b.I], sc[b.J])
        else:
            over = s - sc[b.I]
        if np.any(np.abs(over) < 1e-9 * amp + 100 * eps):
            return Discard("a stretch ties with the critical stretch")
        if np.any((d > 0) & (over < 0)):
            again = True
        d = np.maximum(d, (over > 0) * 1.0)
        if "interface" in case["kinds"] and np.min(count - b.sum_bonds(d)) <= 2:
            return Discard("a point is left with so few bonds that the law removes it")
        want = np.divide(b.sum_bonds(d), count, out=np.zeros(n), where=count > 0)
        got = o.elem["Damage"][t]
        # blocks without damage law need not have the field
        has = np.isfinite(sc)
        bad = has & ~(np.abs(got - want) <= 1e-9)
        bad |= ~has & ~((got == 0) | np.isnan(got))
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            return Bad("step %d: damage of point %d is %r, but %d of its %d bonds have been beyond critical" % (
                t, i + 1, got[i], int(round(want[i] * count[i])), int(count[i])), "initial" if case["initial"] else None)
        Kp, mup = K[blk], mu[blk]
        if law == "elastic":
            tv = ref.lps(b, y, Kp, mup, d, th)[0]
        elif law == "bond":
            tv = ref.bond_based(b, y, Kp, d)
            tv = tv[0] if isinstance(tv, tuple) else tv
        elif law == "linear":
            tv = ref.linear_lps(b, y, Kp, mup, d)[0]
        else:
            tv = plastic.step(y, d)[0] if t > 0 else np.zeros_like(Y)
        fr = b.assemble(tv)
        scale = max(scale, np.max(b.magnitude(tv)))
        tol = 1e-8 * scale + 100 * eps * stiff
        err = np.abs(fd - fr).max(1)
        if not np.all(err <= tol):
            i = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
            return Bad("step %d: force density of point %d is %s; with %d of its %d bonds broken it is %s (tolerance %g)" % (
                t, i + 1, fd[i].tolist(), int(round(want[i] * count[i])), int(count[i]), fr[i].tolist(), tol),
                "initial" if case["initial"] else None)
    part = d.any() and not d.all()
    return Ok(case_key(case) if part and (again or case["mode"] == "free") else None,
              ["law " + law, "mode " + case["mode"], "np=%d" % case["np"], "blocks %d" % nb] +
              ["critical " + k for k in sorted(set(case["kinds"]))] + (["thermal"] if thermal else []) +
              (["closed again"] if again else []) + (["all broken"] if d.all() else []))
