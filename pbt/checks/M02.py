"""Plastic and viscoelastic laws depend on the history as their theories say."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case drives every point of a body along a random loading history. It is non-trivial if the history yields "
        "(plastic laws) or relaxes (viscoelastic law) somewhere and the history has at least two loaded steps.")
TECHNIQUE = "model-based property testing: loading histories replayed step by step in an independent numpy model"
LEVEL_NOTE = ("Random bodies and loading, unloading and reversal histories of up to 14 steps for three laws. Forces and "
              "the plastic multiplier are compared at every step.")
ASSUMPTIONS = ["the influence function is One", "bodies start undeformed",
               "for the viscoelastic law no bond breaks"]
QUICK = dict(examples=2000, cap_s=20)
THOROUGH = dict(examples=40000, cap_s=1800)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 1, 2, 3]))
    law = draw(st.sampled_from(["perfect", "perfect", "planar", "hardening", "hardening", "viscoelastic", "viscoelastic",
                                "disabled"]))
    return {"law": law, "np": np_,
            "cloud": draw(gen.clouds(min_points=8 * np_ if np_ > 1 else 3, max_points=48, max_side=4,
                                     kinds=("lattice", "lattice", "random", "clusters"))),
            "nblocks": draw(st.sampled_from([1, 1, 2])),
            "factor": draw(st.sampled_from([1.2, 1.8, 2.3])),
            "pair": draw(st.sampled_from(gen.ELASTIC_PAIRS)),
            "motion": draw(gen.motions(amps=(1e-3, 1e-2))),
            "path": draw(st.lists(st.floats(-1, 1).map(lambda v: round(v, 3)), min_size=2, max_size=6)),
            "per": draw(st.integers(1, 3)),
            "level": draw(st.sampled_from([0.05, 0.3, 0.7, 1.5])),
            "hard": draw(st.sampled_from([1e-3, 0.1, 1.0, 30.0])),
            "scf": draw(st.booleans()),
            "lam": draw(st.sampled_from([0.0, 0.2, 0.7, 1.0])), "tau": draw(st.sampled_from([0.05, 0.5, 3.0, 100.0])),
            "damage": draw(st.sampled_from([False, False, True])),
            "moduli": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n = len(x)
    nb = min(case["nblocks"], n)
    vol = gen.volumes(case["cloud"], n, h)
    blk = gen.assign_blocks(x, nb, "random", case["cloud"]["seed"])
    if blk is None:
        return Discard("too few points for the blocks")
    law = case["law"]
    r = gen.rng(case["moduli"])
    Kb, nub = 10 ** r.uniform(9, 11.5, 2), r.uniform(0.0, 0.45, 2)
    mub = 3 * Kb * (1 - 2 * nub) / (2 * (1 + nub))
    hor = case["factor"] * h
    b = ref.Body(x, vol, hor)
    if b.ambiguous or len(b.I) == 0:
        return Discard("no bonds or a tie")
    g = gen.history(case["path"], case["per"])
    dt = 1e-3
    exprs = gen.motion_expressions(case["motion"], x, h)
    fields = {"x": x[:, 0], "y": x[:, 1], "z": x[:, 2], "sin": np.sin}
    u1 = np.stack([eval(e, {"__builtins__": {}}, fields) for e in exprs], 1)
    f = gen.factor_expression(g, dt)
    bc = dict(gen.all_points(n))
    for k in range(3):
        bc["u" + "xyz"[k]] = {"Type": "Prescribed Displacement", "Node Set": "Node Set All", "Coordinate": "xyz"[k],
                              "Value": f + "value = value*(%s)" % exprs[k]}
    # yield stress as a fraction of what the full deformation would need
    m = b.weighted_volume()
    th = b.dilatation(x + u1)
    Y, rr = b.bond(x + u1)
    ed = rr - b.z - th[b.I] * b.z / 3
    if np.max(np.abs(ed)) < 1e-3 * case["motion"]["amp"] * h:
        return Discard("no deviatoric deformation")
    mu = mub[blk]
    nrm = b.sum_bonds((15 * ref.per_bond(b, mu) / m[b.I] * ed) ** 2 * b.VJ) / 2
    peak = float(np.max(nrm))
    thick = 0.8 * h
    if law == "planar":
        ys = case["level"] * np.sqrt(peak * 8 * np.pi * thick * hor ** 4 / 75)
    else:
        ys = case["level"] * np.sqrt(peak * 8 * np.pi * hor ** 5 / 25)
    H = case["hard"] * peak * 15 * float(np.max(mu)) / float(np.max(m))
    use_scf = law == "hardening" and case["scf"]
    if use_scf:
        sc = ref.shear_correction(b) if np.all(m > 0) else None
        if sc is None or not np.all(np.isfinite(sc)) or np.max(sc) > 50 or np.min(sc) < 0.02:
            return Discard("shear correction not defined")
    mats, blocks = {}, {}
    for k in range(nb):
        q = {"Density": 7000.0, **gen.elastic_constants(Kb[k], mub[k], case["pair"])}
        if law == "viscoelastic":
            q.update({"Material Model": "Viscoelastic", "lambda_i": float(case["lam"]), "tau b": float(case["tau"] * dt * 5)})
        else:
            q.update({"Material Model": "Elastic Plastic", "Yield Stress": float(ys)})
            if law == "planar":
                q.update({"Planar Problem": True, "Thickness": float(thick)})
            if law == "hardening":
                q.update({"Material Model": "Elastic Plastic Hardening", "Hardening Modulus": float(H),
                          "Apply Shear Correction Factor": bool(case["scf"])})
            if law == "disabled":
                q["Disable Plasticity"] = True
        mats["m%d" % k] = q
        blocks["b%d" % k] = {"Block Names": "block_%d" % (k + 1), "Material": "m%d" % k, "Horizon": float(hor)}
    damage = case["damage"] and law != "viscoelastic"
    s_crit = case["motion"]["amp"] * float(r.uniform(0.2, 1.0))
    dm = None
    if damage:
        dm = {"d": {"Damage Model": "Critical Stretch", "Critical Stretch": s_crit}}
        for k in range(nb):
            blocks["b%d" % k]["Damage Model"] = "d"
    N = len(g)
    solver = {"Verbose": False, "Initial Time": 0.0, "Final Time": (N + 0.5) * dt, "Verlet": {"Fixed dt": dt}}
    out = ["Displacement", "Force_Density", "Dilatation"]
    if law != "viscoelastic":
        out.append("Lambda")
    if law == "hardening":
        out.append("Surface_Correction_Factor")
    p, files = gen.text_deck(x, vol, blk + 1, blocks, mats, out, solver=solver, bc=bc, damage=dm)
    o = runner.simulate(p, files, case["np"], points=n, steps=N + 1)
    scf = None
    if law == "hardening":
        scf = o.elem["Surface_Correction_Factor"][0]
        want = 1 / sc if use_scf else np.ones(n)
        if not np.all(np.abs(scf - want) <= 1e-4 * want):
            i = int(np.nanargmax(np.abs(scf - want)))
            return Bad("shear correction factor of point %d is %r, expected %r" % (i + 1, scf[i], want[i]))
    K = Kb[blk]
    if law == "viscoelastic":
        model = ref.Viscoelastic(b, K, mu, case["lam"], case["tau"] * dt * 5, dt)
    else:
        model = ref.Plastic(b, K, mu, ys if law != "disabled" else 1e100, H if law == "hardening" else None,
                            thick if law == "planar" else None, scf)
    d = np.zeros(len(b.z))
    yielded, loaded = 0, 0
    scale, lscale = 0.0, 0.0
    eps = 1e-14 * (np.abs(x).max() + h) / h
    stiff = np.max(b.magnitude(((9 * K + 15 * mu)[b.I] / m[b.I] * h * (1 if scf is None else max(1, np.max(scf))))[:, None] * [[1, 0, 0]])) * h
    for t in range(1, N + 1):
        u, fd = exo.vec(o, "Displacement", t), exo.vec(o, "Force_Density", t)
        y = x + u
        if damage:
            Y, rr = b.bond(y)
            s = (rr - b.z) / b.z
            if np.any(np.abs(s - s_crit) < 1e-10):
                return Discard("a stretch ties with the critical stretch")
            d = np.maximum(d, (s > s_crit) * 1.0)
        tv, th = model.step(y) if law == "viscoelastic" else model.step(y, d)
        fr = b.assemble(tv)
        mag = np.max(b.magnitude(tv))
        scale = max(scale, mag)
        tol = 1e-8 * scale + 100 * eps * stiff
        err = np.abs(fd - fr).max(1)
        if not np.all(err <= tol):
            i = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
            return Bad("step %d of %d: force density of point %d is %s, the law gives %s (tolerance %g)" % (
                t, N, i + 1, fd[i].tolist(), fr[i].tolist(), tol))
        dl = o.elem["Dilatation"][t]
        if not np.all(np.abs(dl - th) <= 1e-8 * case["motion"]["amp"] + 100 * eps):
            return Bad("step %d: dilatation differs from its definition" % t)
        if law != "viscoelastic":
            got = o.elem["Lambda"][t]
            lscale = max(lscale, np.max(np.abs(model.lam)))
            if not np.all(np.abs(got - model.lam) <= 1e-7 * lscale + 1e-6 * eps * np.max(1 / model.alpha[m > 0])):
                # a multiplier below rounding of the yield test may differ
                i = int(np.nanargmax(np.abs(got - model.lam)))
                rel = abs(got[i] - model.lam[i]) * model.alpha[i]
                if not rel <= 1e-7 + 1e3 * eps / case["motion"]["amp"]:
                    return Bad("step %d: plastic multiplier of point %d is %r, expected %r" % (
                        t, i + 1, got[i], model.lam[i]))
            yielded += int(np.any(model.plastic))
        if mag > 1e3 * eps * stiff:
            loaded += 1
    nontrivial = loaded >= 2 and (yielded or law in ("viscoelastic", "disabled"))
    if law == "disabled" and np.any(o.elem["Lambda"] != 0):
        return Bad("plastic flow although plasticity is disabled")
    return Ok(case_key(case) if nontrivial else None,
              ["law " + law, "np=%d" % case["np"], "yields" if yielded else "no yield"] + (["damage"] if d.any() else []))
