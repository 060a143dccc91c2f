"""Numbering of points and partition into blocks do not matter."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case writes one random simulation in two ways: with the points in another order, with other block numbers, with "
        "blocks of equal properties split, or with block entries joined or given by default. It is non-trivial if the two "
        "inputs differ and the body has bonds.")
TECHNIQUE = "metamorphic property-based testing: renumbered and repartitioned inputs of the same generated simulation"
LEVEL_NOTE = ("Random bodies of up to 64 points, all material families, damage, contact, up to 6 steps, 1 to 3 processes.")
ASSUMPTIONS = ["differences up to 1e-7 of the largest value of a field are rounding"]
QUICK = dict(examples=1800, cap_s=22)
THOROUGH = dict(examples=40000, cap_s=2400)
GLOBAL = ["Global_Kinetic_Energy", "Kinetic_Energy", "Force", "Number_Of_Neighbors", "Neighborhood_Volume",
          "Global_Linear_Momentum", "Global_Angular_Momentum"]

HYPO = ("hypo elastic", "hypo plastic", "hypo hardening")


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 2, 3]))
    fam = draw(st.sampled_from(["state", "state", "state", "contact", "corr", "ba", "flying"]))
    if fam == "state":
        s = draw(scen.scenarios(np_max=np_, thermal=(False, False, True), ratios=(1.0, 1.4), mixed=(False, False, True),
                                loads=("velocity", "pull", "body", "displaced"), max_steps=6))
    elif fam == "contact":
        s = draw(scen.scenarios(laws=("elastic", "plastic"), np_max=np_, contact=(True,), loads=("velocity", "body"),
                                kinds=("lattice", "random"), amps=(0.1, 0.3), max_steps=6))
    elif fam == "flying":
        s = draw(scen.scenarios(laws=HYPO, np_max=np_, damage=(True,), max_steps=6))
        s["neglect"] = draw(st.sampled_from([0.03, 0.1, 0.3]))
    else:
        s = draw(scen.scenarios(laws=tuple(scen.CORR if fam == "corr" else scen.BA), np_max=np_, max_steps=4))
    return {"np": np_, "scenario": s, "seed": draw(gen.seeds),
            "order": draw(st.booleans()), "ids": draw(st.sampled_from(["same", "shifted", "shuffled", "large"])),
            "split": draw(st.sampled_from([1, 1, 2, 3])) if fam != "contact" else 1,
            "entries": draw(st.sampled_from(["single", "joined", "default"])),
            "derived": draw(st.lists(st.sampled_from(GLOBAL), max_size=2, unique=True))}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    out = s.outputs + case["derived"]
    p, f = scen.render(s, outputs=out)
    try:
        a = runner.simulate(p, f, case["np"], points=s.n)
    except runner.Broken:
        if case["scenario"].get("neglect"):
            return Discard("nothing left around a point")
        raise
    r = gen.rng(case["seed"])
    s2 = s.copy()
    origin = list(range(s.nb))
    if case["split"] > 1:
        # divide every block at random into parts with the same properties
        part = r.integers(0, case["split"], s.n)
        pairs = sorted({(int(k), int(q)) for k, q in zip(s.blk, part)})
        origin = [k for k, q in pairs]
        s2.blk = np.array([pairs.index((int(k), int(q))) for k, q in zip(s.blk, part)])
        s2.nb = len(pairs)
        s2.materials = [s.materials[k] for k in origin]
        s2.hor = np.array([s.hor[k] for k in origin])
    if case["ids"] == "same":
        ids = list(range(1, s2.nb + 1))
    elif case["ids"] == "shifted":
        ids = list(range(3, s2.nb + 3))
    elif case["ids"] == "shuffled":
        ids = (1 + r.permutation(s2.nb)).tolist()
    else:
        ids = sorted(r.choice(np.arange(1, 40000), s2.nb, replace=False).tolist(), reverse=True)
    entries = None
    groups = {}
    for j, k in enumerate(origin):
        groups.setdefault(k, []).append(j)
    if case["entries"] == "joined":
        entries = [("group %d" % k, v) for k, v in groups.items()]
    elif case["entries"] == "default":
        pick = max(groups, key=lambda k: len(groups[k]))
        entries = [("my default", str(groups[pick][0]))] + [("group %d" % k, v) for k, v in groups.items() if k != pick]
        if r.integers(0, 2):
            entries = entries[::-1]
    order = r.permutation(s.n) if case["order"] else np.arange(s.n)
    p, f = scen.render(s2, block_ids=ids, outputs=out, order=order, block_entries=entries)
    b = runner.simulate(p, f, case["np"], points=s.n)
    fl = scen.floors(s)
    v = max(np.abs(a.nodal["Velocity" + c]).max() for c in "XYZ")
    mom = 1e-9 * s.rho * s.vol.sum() * v
    fl.update({"Force": fl["Force_Density"] * s.vol.max(), "Global_Linear_Momentum": mom,
               "Global_Angular_Momentum": mom * np.abs(s.x).max() * 3})
    msg = scen.compare(a, b, perm=order, floors=fl)
    if msg:
        return Bad("order %s, block ids %s, split into %d, entries %s: %s" % (
            "changed" if case["order"] else "kept", ids, s2.nb, case["entries"], msg))
    want = np.array(ids)[s2.blk]
    if not np.array_equal(b.blocks[order], want):
        return Bad("points appear in other blocks than they were given")
    differs = case["order"] or case["ids"] != "same" or s2.nb != s.nb or case["entries"] != "single"
    return Ok(case_key(case) if differs and len(s.body.I) else None,
              scen.tags(s) + ["np=%d" % case["np"], "entries " + case["entries"], "split %d" % case["split"]] + scen.given_up(a))
