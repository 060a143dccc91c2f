"""Elastic force laws follow their published formulas."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case is a body of 1-3 blocks with an elastic law, a deformation, an influence function, possibly broken "
        "bonds or a temperature change, and a process count. It is non-trivial if some bond carries force.")
TECHNIQUE = "property-based testing of generated decks against an independent numpy model of each force law"
LEVEL_NOTE = ("Random bodies, deformations and constants for the laws LPS, linear LPS, bond-based and PALS; forces, "
              "dilatation and energy are compared with the formulas. Trusts the Exodus reader and numpy.")
ASSUMPTIONS = ["bonds whose length ties with the horizon or whose stretch ties with the critical stretch are not generated",
               "PALS is checked where its 6x6 systems are well conditioned",
               "broken bonds are fully broken (damage 0 or 1)"]
QUICK = dict(examples=2400, cap_s=20)
THOROUGH = dict(examples=60000, cap_s=2400)

LAWS = ("elastic", "elastic", "elastic", "bond", "bond plane", "linear", "pals", "mixed")


@st.composite
def cases(draw, tier):
    law = draw(st.sampled_from(LAWS))
    np_ = draw(st.sampled_from([1, 1, 1, 2, 3]))
    nb = draw(st.sampled_from([1, 1, 2, 3] if law != "mixed" else [2, 3]))
    if law == "pals":
        cloud = draw(gen.clouds(min_points=27, max_points=64, min_side=3, max_side=4, kinds=("lattice", "random"),
                                jitters=(0.3,), scales=(1.0, 1e-2), offsets=(0.0, 1.0)))
    else:
        cloud = draw(gen.clouds(min_points=8 * np_ if np_ > 1 else 2, max_points=70))
    return {"law": law, "np": np_, "cloud": cloud, "nblocks": min(nb, gen.cloud_size(cloud)),
            "how": draw(st.sampled_from(["random", "slabs"])),
            "factor": draw(st.sampled_from([1.1, 1.6, 2.3, 3.1])) if law != "pals" else draw(st.sampled_from([2.6, 3.3])),
            "ratio": draw(st.sampled_from([1.0, 1.0, 1.4])),
            "influence": draw(st.sampled_from(list(ref.INFLUENCE))) if law != "pals" else "One",
            "pals": [draw(st.sampled_from(["One", "Gaussian", "Parabolic Decay"])) for _ in range(2)],
            "pair": draw(st.sampled_from(gen.ELASTIC_PAIRS)),
            "motion": draw(gen.motions()),
            "damage": draw(st.sampled_from([False, False, True])),
            "thermal": draw(st.sampled_from([False, False, True])),
            "moduli": draw(gen.seeds),
            "analytic_m": draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n, nb, law = len(x), case["nblocks"], case["law"]
    vol = gen.volumes(case["cloud"], n, h)
    blk = gen.assign_blocks(x, nb, case["how"], case["cloud"]["seed"])
    if blk is None:
        return Discard("too few points for the blocks")
    r = gen.rng(case["moduli"])
    Kb = 10 ** r.uniform(9, 11.5, 3)
    nub = r.uniform(-0.2, 0.45, 3)
    mub = 3 * Kb * (1 - 2 * nub) / (2 * (1 + nub))
    rho = 10 ** r.uniform(3, 4)
    hb = case["factor"] * h * case["ratio"] ** np.arange(3)
    kinds = [{"mixed": ["elastic", "bond", "elastic"][k]}.get(law, law) for k in range(nb)]
    damage = case["damage"] and law != "pals"
    thermal = case["thermal"] and law == "elastic" and not damage
    alphas = 10 ** r.uniform(-5, -3, 3)
    height = 0.7 * h
    m_given = 2.5 * (case["factor"] * h) ** 5
    mats, blocks = {}, {}
    for k in range(nb):
        m = {"Density": float(rho)}
        if kinds[k] in ("bond", "bond plane"):
            m["Material Model"] = "Elastic Bond Based"
            if kinds[k] == "bond plane":
                m["Plane Stress" if case["analytic_m"] else "Plane Strain"] = True
                m["Height"] = float(height)
            if case["pair"].startswith("K"):
                m["Bulk Modulus"] = float(Kb[k])
            else:
                # one constant: Poisson's ratio is 1/4 (1/3 in plane stress)
                E = 10 ** r.uniform(9, 11.5)
                m["Young's Modulus"] = float(E)
                if kinds[k] == "bond":
                    Kb[k] = E / (3 * (1 - 0.5))
                elif case["analytic_m"]:
                    Kb[k] = E / (2 * (1 - 1 / 3.))
                else:
                    Kb[k] = E / (2 * (1 - 0.25 - 2 * 0.0625))
        else:
            m.update(gen.elastic_constants(Kb[k], mub[k], case["pair"]))
            m["Material Model"] = {"elastic": "Elastic", "linear": "Linear LPS Partial Volume", "pals": "Pals"}[kinds[k]]
            if kinds[k] == "elastic":
                m["Compute Partial Stress"] = True
                if thermal:
                    m["Thermal Expansion Coefficient"] = float(alphas[k])
            if kinds[k] == "linear" and case["analytic_m"]:
                m["Use Analytic Weighted Volume"] = True
                m["Analytic Weighted Volume"] = float(m_given)
            if kinds[k] == "pals":
                m["Dilatation Influence Function"], m["Deviatoric Influence Function"] = case["pals"]
        mats["m%d" % k] = m
        blocks["b%d" % k] = {"Block Names": "block_%d" % (k + 1), "Material": "m%d" % k, "Horizon": float(hb[k])}
    hor = hb[blk]
    b = ref.Body(x, vol, hor, case["influence"])
    if b.ambiguous:
        return Discard("a distance ties with the horizon")
    if len(b.I) == 0 and law == "pals":
        return Discard("no bonds")
    bc = dict(gen.all_points(n))
    bc.update(gen.initial_motion(gen.motion_expressions(case["motion"], x, h)))
    dmg = None
    s_crit = case["motion"]["amp"] * float(r.uniform(0.1, 1.0))
    if damage:
        dmg = {"d": {"Damage Model": "Critical Stretch", "Critical Stretch": s_crit}}
        for k in range(nb):
            blocks["b%d" % k]["Damage Model"] = "d"
    dt = 0.02 * min(ref.critical_time_step(b, np.max(Kb), rho), 1.0)
    solver = {"Verbose": False, "Initial Time": 0.0, "Final Time": 0.0, "Verlet": {"Fixed dt": 1.0}}
    if thermal:
        bc["heat"] = {"Type": "Prescribed Temperature", "Node Set": "Node Set All",
                      "Value": "value = 20.0 + t*%s*(1.0 + sin(3.0*x/%s))" % (gen.num(30 / dt), gen.num(h))}
        solver = {"Verbose": False, "Initial Time": 0.0, "Final Time": 1.5 * dt, "Verlet": {"Fixed dt": float(dt)}}
    out = ["Displacement", "Force_Density"]
    if "elastic" in kinds or "linear" in kinds or law == "pals":
        out += ["Dilatation", "Weighted_Volume"]
    if "elastic" in kinds:
        out += ["Partial_Stress"] + ([] if law == "mixed" else ["Stored_Elastic_Energy_Density"])
    if thermal:
        out += ["Temperature_Change"]
    p, files = gen.text_deck(x, vol, blk + 1, blocks, mats, out, solver=solver, bc=bc, damage=dmg,
                             disc={"Influence Function": case["influence"]} if law != "pals" else None)
    o = runner.simulate(p, files, case["np"], points=n, steps=2 if thermal else 1)
    loaded = False
    for t in range(o.nt):
        u = exo.vec(o, "Displacement", t)
        f = exo.vec(o, "Force_Density", t)
        y = x + u
        Y, rr = b.bond(y)
        if len(rr) and rr.min() < 1e-6 * h:
            return Discard("points coincide")
        d = np.zeros(len(b.z))
        if damage:
            s = (rr - b.z) / b.z
            if np.any(np.abs(s - s_crit) < 1e-9):
                return Discard("a stretch ties with the critical stretch")
            d = (s > s_crit).astype(float)
        th_strain = alphas[blk] * o.nodal["Temperature_Change"][t] if thermal else np.zeros(n)
        tv = np.zeros((len(b.z), 3))
        theta = np.full(n, np.nan)
        mref = b.weighted_volume()
        done = {}
        for k in range(nb):
            kind = kinds[k]
            own = blk[b.I] == k
            if kind == "elastic":
                q, th = done.setdefault(kind, ref.lps(b, y, Kb[blk], mub[blk], d, th_strain))
            elif kind == "linear":
                mm = m_given if case["analytic_m"] else mref
                q, th = ref.linear_lps(b, y, Kb[blk], mub[blk], d, mm)
                if case["analytic_m"]:
                    mref = np.where(blk == k, m_given, mref)
            elif kind == "pals":
                res = done.get(kind) or ref.pals(b, y, Kb[blk], mub[blk], *case["pals"])
                if res is None:
                    return Discard("degenerate neighbourhood")
                done[kind] = res
                q, th = res
            else:
                q, th = ref.bond_based(b, y, Kb[blk], d, height if kind == "bond plane" else None), None
            tv[own] = q[own]
            if th is not None:
                theta[blk == k] = th[blk == k]
        fr = b.assemble(tv)
        # rounding: relative to the bond forces, and positions known to a few units in the last place
        eps = 1e-14 * (np.abs(x).max() + h) / h
        stiff = b.magnitude(((9 * Kb + 15 * np.abs(mub))[blk[b.I]] * h * b.w / np.maximum(
            b.weighted_volume()[b.I], 1e-300) * h + 18 * Kb[blk[b.I]] / (np.pi * b.hor[b.I] ** 4))[:, None] * [[1, 0, 0]])
        tol = (1e-9 if law != "pals" else 1e-7) * np.max(b.magnitude(tv), initial=0) + eps * np.max(stiff, initial=0) * (
            30 if law != "pals" else 1e3)
        err = np.abs(f - fr).max(axis=1)
        if not np.all(err <= tol):
            i = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
            return Bad("step %d: force density of point %d is %s, the law gives %s (tolerance %g)" % (
                t, i + 1, f[i].tolist(), fr[i].tolist(), tol))
        if "Dilatation" in out:
            ok = ~np.isnan(theta)
            got = o.elem["Dilatation"][t]
            e = np.abs(got - theta)[ok]
            lim = 1e-8 * max(np.max(np.abs(theta[ok]), initial=0), case["motion"]["amp"]) + 100 * eps
            if law == "pals":
                lim *= 1e2
            if not np.all(e <= lim):
                i = int(np.where(ok)[0][np.nanargmax(e)])
                return Bad("step %d: dilatation of point %d is %r, expected %r" % (t, i + 1, got[i], theta[i]))
        if "Weighted_Volume" in out and law != "pals":
            sel = np.isin(blk, [k for k in range(nb) if kinds[k] in ("elastic", "linear")])
            got = o.elem["Weighted_Volume"][t]
            if not np.all(np.abs(got - mref)[sel] <= 1e-10 * mref[sel]):
                i = int(np.where(sel)[0][0])
                return Bad("weighted volume differs from the sum over bonds, e.g. %r, expected %r" % (
                    got[sel].tolist()[:5], mref[sel].tolist()[:5]))
        if "Partial_Stress" in out:
            ps = b.sum_bonds((tv[:, :, None] * b.xi[:, None, :]).reshape(-1, 9) * b.VJ[:, None])
            sel = np.isin(blk, [k for k in range(nb) if kinds[k] == "elastic"])
            got = np.stack([o.elem["Partial_Stress" + a + c][t] for a in "XYZ" for c in "XYZ"], 1)
            lim = tol * np.max(b.hor)
            if not np.all(np.abs(got - ps)[sel] <= lim):
                i = int(np.where(sel)[0][np.nanargmax(np.abs(got - ps)[sel].max(1))])
                return Bad("step %d: partial stress of point %d is %s, expected %s" % (
                    t, i + 1, got[i].tolist(), ps[i].tolist()))
        if "Stored_Elastic_Energy_Density" in out:
            w = ref.lps_energy(b, y, Kb[blk], mub[blk], d, th_strain)
            got = o.elem["Stored_Elastic_Energy_Density"][t]
            lim = 1e-8 * np.max(np.abs(w)) + (eps * 30) ** 2 * np.max(Kb)
            if not np.all(np.abs(got - w) <= lim):
                i = int(np.nanargmax(np.abs(got - w)))
                return Bad("step %d: stored energy density of point %d is %r, expected %r" % (t, i + 1, got[i], w[i]))
        if np.max(b.magnitude(tv), initial=0) > 100 * eps * np.max(stiff, initial=0):
            loaded = True
    return Ok(case_key(case) if loaded else None,
              ["law " + law, "np=%d" % case["np"]] + (["broken bonds"] if damage and d.any() else []) +
              (["thermal"] if thermal else []))
