"""Derived quantities agree with the fields they are derived from."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case runs one simulation, requests derived quantities together with the primary fields, and recomputes every "
        "derived value of every output from the primary fields of the same output and the input. It is non-trivial if at "
        "least four derived quantities are checked and at least one of them has several different values.")
TECHNIQUE = "property-based testing with definitions as the oracle, applied to the primary fields of the same output"
LEVEL_NOTE = ("Random bodies of up to 64 points in up to 4 blocks of different density, with damage and contact, up to 6 "
              "steps, 1 to 4 processes; sums and extrema over blocks and nearest point values for scalar and "
              "vector fields of either sign.")
ASSUMPTIONS = ["the nodal angular momentum may have either sign of the cross product, but the same one everywhere",
               "the acceleration is that of the internal and contact forces; cases with body forces do not check it",
               "the neighbourhood volume counts the point itself"]
QUICK = dict(examples=2400, cap_s=21)
THOROUGH = dict(examples=50000, cap_s=1800)

NODAL = ["Force", "Acceleration", "Linear_Momentum", "Angular_Momentum", "Contact_Force"]
ELEM = ["Kinetic_Energy", "Radius", "Number_Of_Neighbors", "Neighborhood_Volume", "Stored_Elastic_Energy", "Deformation_Gradient"]
GLOB = ["Global_Kinetic_Energy", "Global_Linear_Momentum", "Global_Angular_Momentum"]
TENSOR = ["XX", "XY", "XZ", "YX", "YY", "YZ", "ZX", "ZY", "ZZ"]
# fields that reductions are taken of
VECTORS = ["Displacement", "Velocity", "Force_Density", "Coordinates", "Model_Coordinates"]
SCALARS = ["Volume", "Dilatation", "Damage", "Kinetic_Energy", "Radius"]


@st.composite
def reductions(draw):
    return {"class": draw(st.sampled_from(["Block_Data", "Block_Data", "Nearest_Point_Data"])),
            "kind": draw(st.sampled_from(["Minimum", "Maximum", "Sum"])),
            "var": draw(st.sampled_from(VECTORS + SCALARS)), "seed": draw(gen.seeds)}


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 2, 3, 4]))
    s = draw(scen.scenarios(laws=("elastic", "elastic", "plastic", "bond", "visco", "corr elastic"), np_max=np_, nblocks=(1, 2, 3, 4),
                            max_steps=6, mixed=(False, True), scales=(1.0, 1e-2), offsets=(0.0, 1.0), amps=(1e-3, 1e-2, 0.1),
                            contact=(False, False, True), loads=("velocity", "pull", "body", "displaced")))
    return {"np": np_, "scenario": s, "reductions": draw(st.lists(reductions(), min_size=0, max_size=5)),
            "leave": draw(st.sampled_from([0.0, 0.0, 0.5])), "pick": draw(gen.seeds),
            "shift": draw(st.sampled_from([0.0, 0.0, 5.0, -5.0])), "drift": draw(st.sampled_from([0.0, 0.0, 3.0, -3.0]))}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    np_ = case["np"]
    r = gen.rng(case["pick"], 3)
    # a shifted body and a drift make fields of one sign
    if case["shift"]:
        s.x = s.x + case["shift"] * s.h * np.array([7.0, 8.0, 9.0])
        s.body = ref.Body(s.x, s.vol, s.hor[s.blk], "One", s.blk[:, None] == s.blk[None] if s.omit else None)
        if s.body.ambiguous:
            return Discard("degenerate body")
    if case["drift"] and case["scenario"]["load"] in ("velocity", "body"):
        T = max(s.steps, 1) * s.dt
        s.loads = [(t, p, k, e + (" + %s" % gen.num(case["drift"] * s.amp * s.h / T) if t == "Initial Velocity" else "")) for t, p, k, e in s.loads]
    rho = np.array([s.materials[k]["Density"] for k in range(s.nb)]) * r.uniform(0.95, 1.6, s.nb)
    for k in range(s.nb):
        s.materials[k]["Density"] = float(rho[k])
    rho = rho[s.blk]
    b, n = s.body, s.n
    full = not gen.degenerate(s.x, s.vol, b.M, 0.02)
    derived = [v for v in NODAL + ELEM + GLOB if r.random() >= case["leave"]]
    if not s.contact:
        derived = [v for v in derived if v != "Contact_Force"]
    if any(law not in ("elastic",) for law in s.laws):
        derived = [v for v in derived if v != "Stored_Elastic_Energy"]
    if not full or s.law.startswith("corr") and "Deformation_Gradient" not in s.outputs:
        derived = [v for v in derived if v != "Deformation_Gradient"]
    primary = ["Displacement", "Velocity", "Force_Density", "Volume", "Coordinates"]
    if s.contact:
        primary.append("Contact_Force_Density")
    if "Stored_Elastic_Energy" in derived:
        primary.append("Stored_Elastic_Energy_Density")
    ids = list(range(1, s.nb + 1))
    outs = primary + derived
    order = r.permutation(len(outs))
    outs = [outs[i] for i in order]
    # reductions
    classes, asked = {}, []
    dil = all(law in ("elastic", "plastic", "visco") for law in s.laws)
    for q, rd in enumerate(case["reductions"]):
        var = rd["var"]
        if var == "Dilatation" and not dil or var == "Damage" and not s.damage or var in ("Kinetic_Energy", "Radius") and var not in derived:
            var = "Volume"
        if var not in outs:
            outs.append(var)
        rr = gen.rng(rd["seed"])
        label = "Label_%d" % q
        e = {"Compute Class": rd["class"], "Variable": var, "Output Label": label}
        if rd["class"] == "Block_Data":
            k = int(rr.integers(s.nb))
            e["Block"] = "block_%d" % ids[k]
            e["Calculation Type"] = rd["kind"]
            pts = np.nonzero(s.blk == k)[0]
        else:
            where = s.x[int(rr.integers(n))] + 0.8 * s.h * rr.uniform(-1, 1, 3)
            d = np.linalg.norm(s.x - where, axis=1)
            o = np.sort(d)
            if len(o) > 1 and o[1] - o[0] < 1e-9 * s.h:
                continue
            pts = np.array([int(np.argmin(d))])
            e.update({"X": float(where[0]), "Y": float(where[1]), "Z": float(where[2])})
            if rr.random() < 0.3:
                e["Verbose"] = True
        classes["class %d" % q] = e
        outs.append(label)
        asked.append((label, rd["class"], rd["kind"], var, pts))
    extra = {"Compute Class Parameters": classes} if classes else None
    p, f = scen.render(s, outputs=outs, extra=extra)
    o = runner.simulate(p, f, np_, points=n)
    tags = scen.tags(s) + ["np=%d" % np_] + ["derived " + v for v in derived] + ["%s %s" % (a[1], a[2]) for a in asked]
    m = rho * s.vol
    varied = False
    sign = None
    for t in range(o.nt):
        u, v, F = exo.vec(o, "Displacement", t), exo.vec(o, "Velocity", t), exo.vec(o, "Force_Density", t)
        y = s.x + u
        if not np.isfinite(u).all() or np.abs(u).max() > 1e3 * s.h:
            return Discard("blown up")
        if not np.allclose(exo.vec(o, "Coordinates", t), y, rtol=1e-12, atol=1e-12 * s.h):
            return Bad("Coordinates at output %d are not reference position plus displacement" % t)
        want = {"Force": F * s.vol[:, None], "Acceleration": F / rho[:, None], "Linear_Momentum": m[:, None] * v,
                "Kinetic_Energy": 0.5 * m * (v ** 2).sum(1), "Radius": (3 * s.vol / (4 * np.pi)) ** (1 / 3),
                "Number_Of_Neighbors": b.M.sum(1), "Neighborhood_Volume": s.vol + b.M @ s.vol}
        if s.contact:
            want["Contact_Force"] = exo.vec(o, "Contact_Force_Density", t) * s.vol[:, None]
        if "Stored_Elastic_Energy" in derived:
            want["Stored_Elastic_Energy"] = o.elem["Stored_Elastic_Energy_Density"][t] * s.vol
        L = m[:, None] * np.cross(y, v)
        want["Global_Kinetic_Energy"] = want["Kinetic_Energy"].sum()
        want["Global_Linear_Momentum"] = np.linalg.norm((m[:, None] * v).sum(0))
        want["Global_Angular_Momentum"] = np.linalg.norm(L.sum(0))
        scale = {"Global_Linear_Momentum": (m * np.linalg.norm(v, axis=1)).sum(), "Global_Angular_Momentum": np.abs(L).sum() + (m * np.linalg.norm(v, axis=1) * np.linalg.norm(y, axis=1)).sum()}
        for name in derived:
            if name == "Acceleration" and (case["scenario"]["load"] == "body" or s.contact):
                # whether loads and contact count is not said
                continue
            if name == "Angular_Momentum":
                A = exo.vec(o, name, t)
                tol = 1e-11 * (m * np.linalg.norm(v, axis=1) * np.linalg.norm(y, axis=1)).max()
                hit = [sg for sg in (1, -1) if np.abs(A - sg * L).max() <= tol]
                if not hit or (sign is not None and len(hit) == 1 and hit[0] != sign):
                    w = int(np.argmax(np.minimum(np.abs(A - L).max(1), np.abs(A + L).max(1))))
                    return Bad("Angular_Momentum at output %d, point %d is %s, position times momentum is %s" % (t, w + 1, A[w].tolist(), L[w].tolist()))
                if len(hit) == 1:
                    sign = hit[0]
                continue
            if name == "Deformation_Gradient":
                G = gradient(b, y)
                got = np.stack([o.elem[name + c][t] for c in TENSOR], 1).reshape(n, 3, 3)
                if np.abs(got - G).max() > 1e-9 * (1 + np.abs(G).max()):
                    w = int(np.argmax(np.abs(got - G).max((1, 2))))
                    return Bad("Deformation_Gradient at output %d, point %d is\n%s\nexpected\n%s" % (t, w + 1, got[w], G[w]))
                continue
            x = want[name]
            if name in GLOB:
                g = o.glob[name][t]
                if not abs(g - x) <= 1e-11 * scale.get(name, abs(x)):
                    return Bad("%s at output %d is %r, the points give %r" % (name, t, float(g), float(x)))
                continue
            g = exo.vec(o, name, t) if name in NODAL else o.elem[name][t]
            bad = ~(np.abs(g - x) <= 1e-12 * np.abs(x).max())
            if bad.any():
                w = tuple(np.argwhere(bad)[0])
                return Bad("%s at output %d, point %d is %r, expected %r" % (name, t, w[0] + 1, float(g[w]), float(x[w])))
            varied |= len(np.unique(x)) > 1
        for label, cls, kind, var, pts in asked:
            vecs = var in VECTORS
            a = (exo.vec(o, var, t) if vecs else o.elem[var][t][:, None])[pts]
            if cls == "Nearest_Point_Data":
                x = a[0]
            else:
                x = {"Minimum": a.min(0), "Maximum": a.max(0), "Sum": a.sum(0)}[kind]
            g = np.array([o.glob[label + c][t] for c in "XYZ"]) if vecs else np.array([o.glob[label][t]])
            tol = 1e-13 * np.abs(a).sum(0) if kind == "Sum" else 1e-14 * np.abs(x)
            if not (np.abs(g - x) <= tol).all():
                return Bad("%s of %s over %d points (%s) at output %d is %s, the points give %s" % (
                    kind if cls != "Nearest_Point_Data" else "value", var, len(pts), cls, t, g.tolist(), x.tolist()))
    good = len(derived) + len(asked) >= 4 and varied
    return Ok(case_key(case) if good else None, tags)


def gradient(b, y):
    Y, _ = b.bond(y)
    w = b.w * b.VJ
    K = b.sum_bonds(w[:, None, None] * b.xi[:, :, None] * b.xi[:, None, :])
    A = b.sum_bonds(w[:, None, None] * Y[:, :, None] * b.xi[:, None, :])
    return A @ np.linalg.inv(K)
