"""Damage driven by stress or plastic strain follows its law."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key
from . import M03

RULE = ("A case drives a body through a homogeneous deformation history, with and without a damage model. It is non-trivial if the damage "
        "becomes positive and does not reach one.")
TECHNIQUE = ("model-based property testing: the damage of generated homogeneous loading histories against the law applied to the stress and "
             "plastic strain of the same history")
LEVEL_NOTE = ("Random bodies of 8 to 48 points in 1 or 2 blocks, three hypoelastic laws, stress driven and strain driven damage, loading, "
              "unloading and reversal in 3 to 8 steps, 1 to 3 processes. Non-homogeneous damage is part of P01 and P02.")
ASSUMPTIONS = ["the damage of a step may follow from the stress before or after the step, but always the same way",
               "volumes and distances of the current or the former step may be used for the average over bonds"]
QUICK = dict(examples=2000, cap_s=20)
THOROUGH = dict(examples=40000, cap_s=1500)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 2, 3]))
    law = draw(st.sampled_from(["hypo elastic", "hypo plastic", "hypo hardening"]))
    return {
        "np": np_, "law": law, "model": "stress" if law == "hypo elastic" else draw(st.sampled_from(["stress", "strain", "strain"])),
        "cloud": draw(gen.clouds(min_points=8 * np_, max_points=48, kinds=("lattice", "lattice", "random"), min_side=2, max_side=4,
                                 jitters=(0.0, 0.1, 0.3), scales=(1.0, 1.0, 1e-3), offsets=(0.0, 0.0, 1.0))),
        "ratio": draw(st.sampled_from([1.8, 2.3])), "influence": "One", "order": draw(st.sampled_from([1, 1, 2])),
        "two": draw(st.booleans()), "hourglass": 0.0,
        "motion": draw(st.sampled_from(["general", "shear", "stretch", "rotated"])), "cycle": draw(st.sampled_from(["linear", "sine", "sine", "wave"])),
        "strain": draw(st.sampled_from([1e-3, 5e-3, 0.02])), "turn": draw(st.sampled_from([0.1, 0.5])),
        "level": draw(st.sampled_from([0.05, 0.2, 0.5])), "hard": draw(st.sampled_from([0.0, 0.05, 0.3])),
        "steps": draw(st.integers(3, 12 if tier == "thorough" else 8)), "dt": draw(st.sampled_from([1e-6, 1e-3, 0.5])), "flaw": False,
        "target": draw(st.sampled_from([0.2, 0.5, 0.9])), "threshold": draw(st.sampled_from([0.0, 0.1, 0.4])),
        "defaults": draw(st.booleans()), "neglect": draw(st.sampled_from([None, 0.3, 0.7])), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    x, h = gen.points(case["cloud"])
    vol = gen.volumes(case["cloud"], len(x), h)
    n = len(x)
    hor = case["ratio"] * h
    b = ref.Body(x, vol, hor, "One")
    if b.ambiguous:
        return Discard("a neighbour at the horizon")
    if np.bincount(b.I, minlength=n).min() < 4:
        return Discard("too few neighbours")
    _, sv = M03.gradient_weights(b, b.xi, b.w, b.VJ, case["order"])
    if sv < 1e-3:
        return Discard("a flat neighbourhood")
    r = gen.rng(case["seed"], 2)
    K = float(np.round(r.uniform(1, 3), 3) * 1e9)
    mu = float(np.round(r.uniform(0.3, 1.5), 3) * 1e9)
    N, dt = case["steps"], case["dt"]
    T = N * dt
    mo = M03.Motion(case, T)
    m, p, _ = M03.material(case, K, mu, float(case["level"] * 2 * mu * case["strain"]), case["strain"] / T, hor, r)
    blk = gen.assign_blocks(x, 2, "slab", case["seed"]) if case["two"] else np.zeros(n, int)
    e = mo.expressions(np.zeros(3))
    bc = dict(gen.all_points(n))
    for k in range(3):
        bc["Motion " + "XYZ"[k]] = {"Type": "Prescribed Displacement", "Node Set": "Node Set All", "Coordinate": "xyz"[k], "Value": e[k]}
    strain = case["model"] == "strain"
    outputs = ["Unrotated_Cauchy_Stress", "Von_Mises_Stress"] + ([] if case["law"] == "hypo elastic" else ["Equivalent_Plastic_Strain", "Stress_Triaxiality"])

    def run(damage):
        out = list(outputs)
        if damage:
            out += ["Broken_Bond_Volume_Averaged", "Flying_Point_Flag"] + (["Damage"] if strain else [])
        blocks = {"B%d" % k: dict({"Block Names": "block_%d" % (k + 1), "Material": "Mat", "Horizon": float(hor)}, **({"Damage Model": "D%d" % k} if damage else {}))
                  for k in range(blk.max() + 1)}
        models = {"D0": dict(damage), "D1": dict(damage)} if damage else None
        if damage and neglect < 0.95:
            models["D0"]["Critical Damage To Neglect Material Point"] = neglect
        params, files = gen.text_deck(x, vol, blk + 1, blocks, {"Mat": m}, out, damage=models, bc=bc,
                                      solver={"Verbose": False, "Initial Time": 0.0, "Final Time": float((N + 0.25) * dt), "Verlet": {"Fixed dt": float(dt)}})
        return runner.simulate(params, files, case["np"], points=n, steps=N + 1)

    neglect = 0.95
    o = run(None)
    vm = o.elem["Von_Mises_Stress"].copy()
    vm[0] = 0.0
    if vm.max() == 0 or not np.isfinite(vm).all():
        return Discard("no stress")
    a = case["target"]
    thr = case["threshold"] * a
    if strain:
        ep, tri = o.elem["Equivalent_Plastic_Strain"].copy(), o.elem["Stress_Triaxiality"].copy()
        ep[0], tri[0] = 0.0, 0.0
        if ep[-1].max() <= 1e-9:
            return Discard("no plastic strain")
        d3 = float(np.round(r.uniform(0, 1.5), 3))
        share = float(r.uniform(0, 1))
        de = np.maximum(np.diff(ep, axis=0), 0)
        f = share + (1 - share) * np.exp(-d3 * tri[1:])
        total = (de / f).sum(0).max()
        d1, d2 = float(share * total / a), float((1 - share) * total / a)
        D = np.concatenate([np.zeros((1, n)), np.cumsum(de / (d1 + d2 * np.exp(-d3 * tri[1:])), 0)])
        damage = {"Damage Model": "Johnson Cook", "Damage Parameter 1": d1, "Damage Parameter 2": d2, "Damage Parameter 3": d3,
                  "Threshold Damage": float(thr), "Critical Damage": 0.95}
        B = np.where(D > thr, (D - thr) / (1 - thr), 0.0)
    else:
        # the largest stress reaches the target on the way from threshold to critical
        crit = 1.0 if case["defaults"] else float(r.uniform(0.7, 1.3))
        lo = float(thr * crit)
        top = lo + a * (crit - lo)
        damage = {"Damage Model": "Von Mises Stress", "Critical Von Mises Stress": float(vm.max() / top), "Threshold Damage": lo}
        if not case["defaults"]:
            damage["Critical Damage"] = crit
        q = vm / damage["Critical Von Mises Stress"]
        D = B = np.maximum.accumulate(np.clip((q - lo) / (crit - lo), 0, 1), 0)
    if case["neglect"] and case["two"]:
        neglect = float(case["neglect"] * B.max())
    try:
        o = run(damage)
    except runner.Broken:
        if neglect < 0.95:
            return Discard("nothing left around a point")
        raise
    limit = np.where(blk == 0, neglect, 0.95)
    got = o.elem["Broken_Bond_Volume_Averaged"]
    flag = o.elem["Flying_Point_Flag"]
    size = max(np.abs(mo.F(k * dt) - mo.F((k - 1) * dt)).max() for k in range(1, N + 1))
    slack = 8 * size + 1e-9

    def law(lag):
        for k in range(0, N + 1):
            j = max(k - lag, 0)
            for name, ref_ in (("Broken_Bond_Volume_Averaged", B),) + ((("Damage", D),) if strain else ()):
                v = o.elem[name][k]
                w = ref_[j]
                tol = slack * w + 1e-7 * (1 + 1 / max(a, 1e-3)) * ref_.max()
                bad = ~(np.abs(v - w) <= tol)
                if bad.any():
                    i = int(np.argwhere(bad)[0][0])
                    return "%s of point %d after step %d is %r, the law gives %r" % (name, i + 1, k, float(v[i]), float(w[i])), k
            away = np.abs(got[k] - limit) > 1e-9
            wrong = away & ((flag[k] > 0) != (got[k] > limit))
            if wrong.any():
                i = int(np.argwhere(wrong)[0][0])
                return "step %d: the average damage of point %d is %r, the limit is %r, but the point is %s" % (
                    k, i + 1, float(got[k][i]), limit[i], "given up" if flag[k][i] > 0 else "kept"), k
            if (got[k] > limit).any():
                return None, k
        return None, N

    first = [law(1), law(0)]
    if first[0][0] and first[1][0]:
        return Bad("%s, %s damage: %s" % (case["law"], case["model"], first[0][0]))
    end = first[0][1] if not first[0][0] else first[1][1]
    v = o.elem["Von_Mises_Stress"][1:end + 1]
    if not np.abs(v - vm[1:end + 1]).max(initial=0) <= 1e-6 * vm.max():
        return Bad("%s, %s damage: damage changes the stress of a homogeneous deformation" % (case["law"], case["model"]))
    tags = ["law " + case["law"], "model " + case["model"], "np=%d" % case["np"]]
    if end < N:
        tags.append("points given up")
    if np.any(np.diff(B[:, 0]) == 0) and B.max() > 0:
        tags.append("unloading")
    return Ok(case_key(case) if 0 < got[:end + 1].max() < 1 else None, tags)
