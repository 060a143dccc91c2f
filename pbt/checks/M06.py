"""Tangent matrix of the material models against differences of the internal force."""
import numpy as np
from hypothesis import strategies as st

from .. import deck as deckmod
from .. import gen, scen, server
from ..engine import Bad, Discard, Ok, case_key
from .. import runner

RULE = ("A case takes a small body through a deformation history and asks a material for its tangent matrix. It is non-trivial if "
        "the body is deformed, so that the matrix is not the one of the reference configuration.")
TECHNIQUE = ("property-based testing of the material models in process: the tangent matrix against fourth-order differences of the "
             "internal force over generated bodies, deformations, damage patterns, temperatures and inelastic histories")
LEVEL_NOTE = ("3 to 30 points, some of them ghosts, random global numbers; automatic differentiation and finite differences, full and "
              "block-diagonal matrices; elastic, plastic, hardening, viscoelastic, bond-based, correspondence and coupled fluid laws.")
ASSUMPTIONS = ["states within the difference length of a yield surface or another kink are left out (the two differences disagree)"]
BUILD = {"rel": ["verif_tangent"]}
QUICK = dict(examples=30000, cap_s=21)
THOROUGH = dict(examples=600000, cap_s=1800)
LAWS = ["elastic", "elastic", "elastic fd", "plastic", "plastic", "hardening", "visco", "bond", "corr elastic", "corr plastic",
        "corr hardening", "fluid", "fluid"]
# laws whose block-diagonal form is not defined
NO_DIAGONAL = ("fluid",)


@st.composite
def cases(draw, tier):
    law = draw(st.sampled_from(LAWS))
    full = law.startswith("corr")
    cloud = draw(gen.clouds(min_points=27 if full else 3, max_points=30 if full else (30 if tier == "thorough" else 16), min_side=3 if full else 1,
                            max_side=3, kinds=("lattice",) if full else ("lattice", "random", "clusters"),
                            jitters=(0.1, 0.3) if full else (0.0, 0.1, 0.3), scales=(1.0, 1e-2), offsets=(0.0,)))
    return {"law": law, "cloud": cloud, "factor": draw(st.sampled_from([1.9, 2.6] if full else [1.3, 1.8, 2.6])),
            "owned": draw(st.sampled_from([1.0, 0.7, 0.3])), "influence": draw(st.sampled_from(["One", "Parabolic Decay", "Gaussian"])),
            "amp": draw(st.sampled_from([0.0, 1e-3, 1e-2, 0.1, 0.1])), "steps": draw(st.integers(1, 4)),
            "level": draw(st.sampled_from([0.2, 0.6, 3.0])), "broken": draw(st.sampled_from([0.0, 0.0, 0.3])),
            "partial": draw(st.booleans()), "thermal": draw(st.booleans()), "shear": draw(st.booleans()),
            "diagonal": draw(st.sampled_from([False, False, True])) and law not in NO_DIAGONAL, "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def array(values, kind="double"):
    return "{%s}" % ",".join(repr(float(v)) if kind == "double" else str(int(v)) for v in values)


def material(case, K, mu, h, hor, dt):
    law = case["law"]
    m = scen.material({"elastic fd": "elastic", "fluid": "elastic"}.get(law, law), K, mu, 1000.0, case["level"], h, hor,
                      max(case["amp"], 1e-3), dt)
    m["Horizon"] = float(hor)
    if law == "elastic fd":
        m["Apply Automatic Differentiation Jacobian"] = False
    if law in ("elastic", "elastic fd", "fluid") and case["thermal"]:
        m["Thermal Expansion Coefficient"] = 1e-2
    if law in ("elastic", "elastic fd", "plastic") and case["shear"]:
        m["Apply Shear Correction Factor"] = True
    if law == "fluid":
        m.update({"Material Model": "Multiphysics Elastic", "Permeability": 0.7, "Fluid density": 2.0, "Fluid compressibility": 0.3,
                  "Fluid dynamic viscosity": 1.7, "Fluid linear thermal expansion": 0.0, "Fluid Reynolds viscosity temperature effect": 0.05,
                  "Permeability curve inflection damage": 0.4, "Max permeability": 3.0, "Permeability alpha": 0.5})
    m["Finite Difference Probe Length"] = float(1e-6 * h)
    return m


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n = len(x)
    law = case["law"]
    r = gen.rng(case["seed"], 31)
    vol = gen.volumes(case["cloud"], n, h)
    hor = case["factor"] * h
    d = gen.dist(x)
    A = (d < hor) & (d > 0)
    full = law.startswith("corr")
    m = n if full else max(1, int(round(case["owned"] * n)))
    if full and (gen.degenerate(x, vol, A, 0.02) or np.min(d[d > 0]) < 0.2 * h):
        return Discard("neighbourhood does not span space")
    if not np.all(A[:m].any(1)):
        return Discard("isolated point")
    K = 10 ** r.uniform(9, 10)
    mu = K * r.uniform(0.3, 1.2)
    dt = 1e-6
    # the history: a smooth motion and noise on top, growing, turning back or changing direction
    noise = r.normal(0, 0.3, (case["steps"], n, 3)) * case["amp"] * h
    G = r.uniform(-1, 1, (3, 3)) * case["amp"]
    Y = [x + (x - x.mean(0)) @ G.T * f + e for f, e in zip(r.uniform(-1, 1, case["steps"]) if case["steps"] > 1 else [1.0], noise)]
    for y in Y:
        length = gen.dist(y)[A]
        if np.min(length / d[A]) < 0.2:
            return Discard("points nearly coincide")
    nb, bonds = [], 0
    for i in range(m):
        j = r.permutation(np.flatnonzero(A[i]))
        nb += [len(j)] + list(j)
        bonds += len(j)
    damage = np.where(r.uniform(size=bonds) < case["broken"], r.uniform(size=bonds) if case["partial"] else 1.0, 0.0)
    if full:
        damage[:] = 0.0
    ids = r.permutation(n)
    params = {"Material": material(case, K, mu, h, hor, dt), "Influence Function": case["influence"], "Horizon": float(hor),
              "Step": dt, "Owned": int(m), "Block Diagonal": bool(case["diagonal"]), "Probe": float(2e-5 * h), "Pressure Scale": float(K / h)}
    fluid = law == "fluid"
    arrays = {"X": x.ravel(), "V": vol, "Y": np.ravel(Y), "Damage": damage, "Temperature": r.uniform(-1, 1, n),
              "Pressure": r.uniform(-1, 1, n) * K * max(case["amp"], 1e-3) if fluid else []}
    xml = deckmod.to_xml(params).rsplit("</ParameterList>", 1)[0]
    for k, v in arrays.items():
        xml += '<Parameter name="%s" type="Array(double)" value="%s"/>\n' % (k, array(v))
    for k, v in (("Neighborhood", nb), ("Ids", ids)):
        xml += '<Parameter name="%s" type="Array(int)" value="%s"/>\n' % (k, array(v, "int"))
    xml += "</ParameterList>\n"
    try:
        lines = server.ask("verif_tangent", "%d\n%s" % (len(xml.encode()), xml), which=law)
    except runner.Broken as e:
        return Bad("%s: no tangent matrix: %s" % (law, e))
    dof = 4 if fluid else 3
    J, D, D2 = [np.array([float(v) for v in s.split()]).reshape(n * dof, n * dof) for s in lines[-3:]]
    tags = ["law=" + law, "diagonal=%s" % case["diagonal"], "ghosts=%s" % (m < n), "broken=%s" % bool(np.any(damage)),
            "steps=%d" % case["steps"], "influence=" + case["influence"]]
    if not (np.all(np.isfinite(D)) and np.all(np.isfinite(D2))):
        return Discard("no finite force")
    part = np.arange(n * dof) % dof < 3
    point = np.arange(n * dof) // dof
    want = D2.copy()
    if case["diagonal"]:
        want[point[:, None] != point[None]] = 0.0
    for rows, a in ((part, "force"), (~part, "flow")):
        for cols, b in ((part, "positions"), (~part, "pressures")):
            if not rows.any() or not cols.any():
                continue
            pick = np.ix_(rows, cols)
            scale = np.abs(D2[pick]).max()
            # a part that vanishes is compared with what the rounding of the force allows
            if a == "force" and b == "positions":
                scale = max(scale, 1e-6 * K * h)
            elif scale == 0.0:
                if np.abs(J[pick]).max() > 0:
                    return Bad("%s: derivative of the %s with respect to the %s is zero but the matrix has %.6g" % (law, a, b, np.abs(J[pick]).max()))
                continue
            if np.abs(D[pick] - D2[pick]).max() > 1e-7 * scale:
                return Discard("kink, " + law)
            err = np.abs(J[pick] - want[pick])
            if not err.max() < 1e-6 * scale:
                k, l = np.unravel_index(np.nanargmax(np.where(np.isfinite(err), err, np.inf)), err.shape)
                k, l = np.flatnonzero(rows)[k], np.flatnonzero(cols)[l]
                return Bad("%s: entry of row (point %d, %d) and column (point %d, %d) of the tangent matrix is %.9g, the derivative of the %s"
                           " with respect to the %s is %.9g (largest entry %.3g)"
                           % (law, k // dof, k % dof, l // dof, l % dof, J[k, l], a, b, want[k, l], scale))
    return Ok(case_key(case) if case["amp"] > 0 else None, tags)
