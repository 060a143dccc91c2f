"""Whole simulations: a physical description drawn at random, kept apart from the way it is written down.

A Scenario holds the body (points, volumes, blocks), block properties, loads given as expressions of the reference
position and time, and solvers. render() writes it as an input deck; the metamorphic checks render the same scenario
in different ways and compare results.
"""
import copy

import numpy as np
from hypothesis import strategies as st

from . import deck as deckmod
from . import gen, ref

# law -> (family, forces act along bonds)
LAWS = {
    "elastic": True, "bond": True, "plastic": True, "hardening": True, "visco": True, "linear": False, "pals": True,
    "corr elastic": False, "corr plastic": False, "corr hardening": False, "corr visco": False,
    "hypo elastic": False, "hypo plastic": False, "hypo hardening": False,
    "ba elastic": False, "ba plastic": False, "ba hardening": False,
}
CENTRAL = [k for k, v in LAWS.items() if v]
STATE = ["elastic", "elastic", "bond", "plastic", "hardening", "visco", "linear", "pals"]
CORR = ["corr elastic", "corr plastic", "corr hardening", "corr visco", "hypo elastic", "hypo plastic", "hypo hardening"]
BA = ["ba elastic", "ba plastic", "ba hardening"]


def needs_full_neighbourhood(law):
    return law == "pals" or law.startswith(("corr", "hypo", "ba"))


def material(law, K, mu, rho, level, h, hor, strain, dt):
    """Parameters of a material; level scales the yield stress against the stress the strain would need."""
    m = {"Density": float(rho), "Bulk Modulus": float(K), "Shear Modulus": float(mu)}
    ys = float(level * 2 * mu * strain)
    if law == "elastic":
        m["Material Model"] = "Elastic"
    elif law == "bond":
        m = {"Density": float(rho), "Bulk Modulus": float(K), "Material Model": "Elastic Bond Based"}
    elif law == "plastic":
        m.update({"Material Model": "Elastic Plastic", "Yield Stress": ys})
    elif law == "hardening":
        # the hardening modulus has the unit of the squared force norm over the multiplier
        m.update({"Material Model": "Elastic Plastic Hardening", "Yield Stress": ys,
                  "Hardening Modulus": float(25 * ys ** 2 / (8 * np.pi * hor ** 5) * 15 * mu / (4 * np.pi * hor ** 5 / 5))})
    elif law == "visco":
        m.update({"Material Model": "Viscoelastic", "lambda_i": 0.6, "tau b": float(4 * dt)})
    elif law == "linear":
        m["Material Model"] = "Linear LPS Partial Volume"
    elif law == "pals":
        m.update({"Material Model": "Pals", "Dilatation Influence Function": "Gaussian",
                  "Deviatoric Influence Function": "One"})
    elif law.startswith("corr"):
        m["Hourglass Coefficient"] = 0.02
        kind = law.split()[1]
        if kind == "elastic":
            m["Material Model"] = "Elastic Correspondence"
        elif kind == "plastic":
            m.update({"Material Model": "Elastic Plastic Correspondence", "Yield Stress": ys})
        elif kind == "hardening":
            m.update({"Material Model": "Isotropic Hardening Correspondence", "Yield Stress": ys,
                      "Hardening Modulus": float(0.1 * mu)})
        else:
            m.update({"Material Model": "Viscoplastic Needleman Correspondence", "Yield Stress": ys,
                      "Strain Hardening Exponent": 0.1, "Rate Hardening Exponent": 0.2,
                      "Reference Strain Rate": float(strain / dt / 10), "Reference Strain 0": float(ys / (2 * mu)),
                      "Reference Strain 1": float(30 * strain)})
    elif law.startswith("hypo"):
        m["Actual Horizon"] = float(hor)
        kind = law.split()[1]
        if kind == "elastic":
            m["Material Model"] = "Elastic Hypoelastic Correspondence"
        elif kind == "plastic":
            m.update({"Material Model": "Elastic Plastic Hypoelastic Correspondence", "Yield Stress": ys})
        else:
            m.update({"Material Model": "Isotropic Hardening Hypoelastic Correspondence", "Yield Stress": ys,
                      "Hardening Characteristic Strain": float(strain), "Hardening Exponent": 0.3})
    else:
        kind = law.split()[1]
        if kind == "elastic":
            m["Material Model"] = "Elastic Bond Associated Correspondence"
        elif kind == "plastic":
            m.update({"Material Model": "Elastic Plastic Bond Associated Correspondence", "Yield Stress": ys})
        else:
            m.update({"Material Model": "Isotropic Hardening Bond Associated Correspondence", "Hardening Rule": "Power-law",
                      "Hardening Parameters": {"Yield Stress": ys, "Hardening Characteristic Strain": float(strain),
                                               "Hardening Exponent": 0.3}})
    return m


def extra_outputs(law):
    """Element and nodal fields the law provides besides the common ones."""
    return {
        "elastic": ["Dilatation", "Weighted_Volume"],
        "plastic": ["Dilatation", "Lambda"], "hardening": ["Dilatation", "Lambda"], "visco": ["Dilatation"],
        "linear": ["Dilatation"], "pals": ["Dilatation"],
        "corr elastic": ["Cauchy_Stress", "Deformation_Gradient"],
        "corr plastic": ["Cauchy_Stress", "Von_Mises_Stress", "Equivalent_Plastic_Strain"],
        "corr hardening": ["Cauchy_Stress", "Von_Mises_Stress", "Equivalent_Plastic_Strain"],
        "corr visco": ["Cauchy_Stress", "Von_Mises_Stress", "Equivalent_Plastic_Strain"],
    }.get(law, [])


class Scenario:
    """x, vol, blk (0-based), block_ids, nb, hor (per block), materials, law, damage, contact, loads, solvers, influence."""

    def copy(self):
        return copy.deepcopy(self)


@st.composite
def scenarios(draw, laws=tuple(STATE), np_max=4, max_points=60, min_points=2, contact=(False,), damage=(False, False, True),
              solvers=("verlet",), max_steps=8, kinds=("lattice", "lattice", "random", "clusters"), nblocks=(1, 1, 2, 3),
              ratios=(1.0,), loads=("velocity", "pull", "body"), thermal=(False,), influences=("One",), amps=(1e-3, 1e-2, 0.1),
              steps=None, mixed=(False,), scales=(1.0, 1.0, 1e-2), offsets=(0.0, 0.0, 1.0)):
    law = draw(st.sampled_from(laws))
    full = needs_full_neighbourhood(law)
    low = max(min_points, 8 * np_max if np_max > 1 else 1)
    if full:
        cloud = draw(gen.clouds(min_points=max(low, 27), max_points=max(max_points, 64), min_side=3, max_side=4,
                                kinds=("lattice",), jitters=(0.1, 0.3), scales=scales, offsets=offsets))
    else:
        cloud = draw(gen.clouds(min_points=low, max_points=max(low, max_points), max_side=6, kinds=kinds, scales=scales,
                                offsets=offsets))
    con = draw(st.sampled_from(contact))
    nb = min(draw(st.sampled_from(nblocks if not con else [2, 2, 3])), gen.cloud_size(cloud))
    c = {"law": law, "cloud": cloud, "nblocks": nb,
         "how": draw(st.sampled_from(["random", "slabs"])) if not con else "slabs",
         "factor": draw(st.sampled_from([1.6, 2.3, 3.1])) if not full else draw(st.sampled_from([1.9, 2.6])),
         "ratio": draw(st.sampled_from(ratios)),
         "influence": draw(st.sampled_from(influences)) if law != "pals" else "One",
         "mixed": draw(st.sampled_from(mixed)) if law in ("elastic", "plastic") else False,
         "damage": draw(st.sampled_from(damage)) if law not in ("pals", "visco") and not law.startswith(("ba", "corr")) else False,
         "contact": con,
         "solver": draw(st.sampled_from(solvers)),
         "steps": draw(st.integers(1, max_steps)) if steps is None else steps,
         "amp": draw(st.sampled_from(amps)) if not law == "linear" else draw(st.sampled_from(amps[:2])),
         "load": draw(st.sampled_from(loads)),
         "level": draw(st.sampled_from([0.2, 0.6, 3.0])),
         "thermal": draw(st.sampled_from(thermal)) if law == "elastic" else False,
         "moduli": draw(gen.seeds)}
    return c


def build(case):
    """Expands a case; returns None if it is degenerate."""
    s = Scenario()
    s.case = case
    x, h = gen.points(case["cloud"])
    n = len(x)
    s.x, s.h, s.n = x, h, n
    law = case["law"]
    s.law = law
    s.vol = gen.volumes(case["cloud"], n, h, spread=0.2)
    nb = s.nb = case["nblocks"]
    s.blk = gen.assign_blocks(x, nb, case["how"], case["cloud"]["seed"])
    if s.blk is None:
        return None
    r = gen.rng(case["moduli"], 5)
    rho = float(10 ** r.uniform(3, 4))
    K = 10 ** r.uniform(9, 10) * r.uniform(0.7, 1.4, nb)
    nu = r.uniform(0.1, 0.4, nb)
    mu = 3 * K * (1 - 2 * nu) / (2 * (1 + nu))
    s.hor = case["factor"] * h * case["ratio"] ** np.arange(nb)
    s.rho, s.K, s.mu = rho, K, mu
    s.omit = bool(case["contact"])
    A = s.blk[:, None] == s.blk[None] if s.omit else None
    s.influence = case["influence"]
    b = s.body = ref.Body(x, s.vol, s.hor[s.blk], "One", A)
    if b.ambiguous:
        return None
    if needs_full_neighbourhood(law) and gen.degenerate(x, s.vol, b.M, 0.02):
        return None
    if np.min(b.z, initial=h) < 0.2 * h and needs_full_neighbourhood(law):
        return None
    if law == "pals":
        # the constraints of the model need the second-order shapes of every neighborhood to be independent
        q = ref._sym6(b.xi / b.z[:, None])
        for i in range(n):
            w = q[b.I == i]
            if len(w) < 9 or np.linalg.cond(w) > 60:
                return None
    crit = ref.critical_time_step(b, K[s.blk], rho)
    if not np.isfinite(crit):
        crit = h * np.sqrt(rho / np.max(K))
    dt = s.dt = float(0.25 * crit)
    N = s.steps = case["steps"]
    amp = s.amp = case["amp"]
    laws = [law] * nb
    if case["mixed"] and nb > 1:
        laws = [law if k % 2 == 0 else {"elastic": "bond", "plastic": "elastic"}[law] for k in range(nb)]
    s.laws = laws
    s.materials = [material(laws[k], K[k], mu[k], rho, case["level"], h, s.hor[k], amp, dt) for k in range(nb)]
    s.damage = None
    s.s_crit = amp * float(r.uniform(0.3, 1.2))
    if case["damage"] and law.startswith("hypo"):
        # partial damage of the bonds, so that the gradients stay defined
        stress = float(2 * np.mean(mu) * amp)
        if law == "hypo elastic" or r.random() < 0.5:
            s.damage = {"Damage Model": "Von Mises Stress", "Critical Von Mises Stress": float(stress * r.uniform(2, 6)), "Threshold Damage": 0.02,
                        "Critical Damage": float(r.uniform(0.8, 1.5))}
        else:
            s.damage = {"Damage Model": "Johnson Cook", "Damage Parameter 1": float(amp * r.uniform(0.5, 2)), "Damage Parameter 2": float(amp * r.uniform(0, 2)),
                        "Damage Parameter 3": float(r.uniform(0.1, 2)), "Threshold Damage": float(r.choice([0.0, 0.05])), "Critical Damage": 0.9}
        if case.get("neglect"):
            s.damage["Critical Damage To Neglect Material Point"] = float(case["neglect"])
    elif case["damage"]:
        s.damage = {"Damage Model": "Critical Stretch", "Critical Stretch": s.s_crit}
    s.contact = None
    if case["contact"]:
        rc = float(h * r.uniform(0.9, 1.3))
        s.contact = {"radius": rc, "search": float(rc + h), "frequency": int(r.integers(1, 4)),
                     "spring": float(np.mean(K) * r.uniform(0.1, 1)), "friction": float(r.choice([0.0, 0.3]))}
    # loads: (type, points, coordinate, expression)
    s.loads = []
    every = np.arange(n)
    T = max(N, 1) * dt
    motion = {"kind": "waves", "amp": amp, "seed": case["moduli"]}
    shape = gen.motion_expressions(motion, x, h)
    s.shape = shape
    kind = case["load"]
    if kind in ("velocity", "body"):
        for k in range(3):
            s.loads.append(("Initial Velocity", every, k, "(%s)*%s" % (shape[k], gen.num(1 / T))))
    if kind == "displaced":
        for k in range(3):
            s.loads.append(("Initial Displacement", every, k, shape[k]))
    if kind == "body":
        acc = 2 * amp * h / T ** 2 * r.uniform(-1, 1, 3)
        part = np.sort(r.permutation(n)[:max(1, n // 2)])
        for k in range(3):
            s.loads.append(("Body Force", part, k, "%s*(1.0 + t*%s)" % (gen.num(acc[k] * rho), gen.num(1 / T))))
    if kind == "pull":
        ax = int(np.argmax(np.ptp(x, axis=0)))
        order = np.argsort(x[:, ax], kind="stable")
        m = max(1, n // 4)
        lo, hi = np.sort(order[:m]), np.sort(order[n - m:])
        if n >= 4:
            for k in range(3):
                s.loads.append(("Prescribed Displacement", lo, k, "0.0"))
                s.loads.append(("Prescribed Displacement", hi, k, "%s*t" % gen.num(amp * h / T * r.uniform(-1, 1))))
        mid = np.setdiff1d(every, np.concatenate([lo, hi])) if n >= 4 else every
        if len(mid):
            for k in range(3):
                s.loads.append(("Initial Velocity", mid, k, "(%s)*%s" % (shape[k], gen.num(0.3 / T))))
    if case["thermal"]:
        s.loads.append(("Prescribed Temperature", every, None, "t*%s*(1.0 + 0.5*sin(2.0*x/%s))" % (
            gen.num(20 / T), gen.num(h))))
        for m in s.materials:
            m["Thermal Expansion Coefficient"] = float(amp / 40)
    s.t0 = 0.0
    s.tf = (N + 0.5) * dt
    s.outputs = ["Displacement", "Velocity", "Force_Density"]
    if law not in ("pals",) and not law.startswith(("ba", "hypo")):
        s.outputs.append("Damage") if s.damage else None
    if law.startswith("hypo") and s.damage:
        s.outputs += ["Broken_Bond_Volume_Averaged", "Flying_Point_Flag"] + (["Damage"] if "Damage Parameter 1" in s.damage else [])
    if not case["mixed"]:
        s.outputs += [o for o in extra_outputs(law) if not (law == "plastic" and nb > 1 and case["mixed"])]
    if s.contact:
        s.outputs.append("Contact_Force_Density")
    s.solver = case["solver"]
    return s


def solver_list(s):
    base = {"Verbose": False, "Initial Time": float(s.t0), "Final Time": float(s.tf)}
    if s.solver == "verlet":
        base["Verlet"] = {"Fixed dt": float(s.dt)}
    elif s.solver == "qs":
        base["QuasiStatic"] = {"Number of Load Steps": s.steps, "Absolute Tolerance": 1e-8 * s.force_scale,
                               "Maximum Solver Iterations": 30}
        base["Final Time"] = float(s.steps * s.dt)
    elif s.solver == "implicit":
        base["Implicit"] = {"Fixed dt": float(s.dt), "Absolute Tolerance": 1e-9 * s.force_scale,
                            "Maximum Solver Iterations": 30, "Beta": 0.25, "Gamma": 0.5}
    return base


def render(s, block_ids=None, frequency=1, outname="out", outputs=None, style="list", order=None, solver=None,
           block_entries=None, extra=None, mesh_text=None):
    """Writes the scenario. order: the position in the file of each point (a permutation)."""
    n = s.n
    order = np.arange(n) if order is None else np.asarray(order)
    inv = np.empty(n, int)
    inv[order] = np.arange(n)         # file line -> point
    ids = list(range(1, s.nb + 1)) if block_ids is None else list(block_ids)
    mats = {"m%d" % k: dict(s.materials[k]) for k in range(s.nb)}
    if block_entries is None:
        block_entries = [(("b%d" % k), [k]) for k in range(s.nb)]
    damages = s.damage if isinstance(s.damage, list) else [s.damage] * s.nb
    blocks = {}
    for name, members in block_entries:
        k = members[0] if not isinstance(members, str) else int(members)
        names = "default" if isinstance(members, str) else " ".join("block_%d" % ids[j] for j in members)
        e = {"Block Names": names, "Material": "m%d" % k, "Horizon": float(s.hor[k])}
        if damages[k]:
            e["Damage Model"] = "d%d" % k if damages[k] is not damages[0] else "d0"
        blocks[name] = e
    bc = {}
    sets = {}
    for (typ, pts, coord, expr) in s.loads:
        key = tuple(sorted(order[np.asarray(pts)].tolist()))
        if key not in sets:
            sets[key] = "Node Set %d" % (len(sets) + 1)
            bc[sets[key]] = gen.node_list(key)
    for i, (typ, pts, coord, expr) in enumerate(s.loads):
        key = tuple(sorted(order[np.asarray(pts)].tolist()))
        e = {"Type": typ, "Node Set": sets[key], "Value": expr}
        if coord is not None:
            e["Coordinate"] = "xyz"[coord]
        bc["load %d" % i] = e
    contact = None
    if s.contact:
        c = s.contact
        model = {"Contact Model": "Short Range Force", "Contact Radius": c["radius"], "Spring Constant": c["spring"]}
        if c["friction"]:
            model["Friction Coefficient"] = c["friction"]
        contact = {"Search Radius": c["search"], "Search Frequency": c["frequency"], "Models": {"model": model},
                   "Interactions": {"General Contact": {"Contact Model": "model"}}}
    disc = {}
    if s.omit:
        disc["Omit Bonds Between Blocks"] = "All"
    if s.influence != "One":
        disc["Influence Function"] = s.influence
    p, f = gen.text_deck(s.x[inv], s.vol[inv], np.array(ids)[s.blk[inv]], blocks, mats, outputs or s.outputs,
                         solver=solver or solver_list(s), bc=bc, damage={"d%d" % k: dict(d) for k, d in enumerate(damages) if d} or None,
                         contact=contact, frequency=frequency, disc=disc, outname=outname, extra=extra,
                         mesh_text=mesh_text)
    return p, f


def tags(s):
    c = s.case
    t = ["law " + s.law, "blocks %d" % s.nb, "load " + c["load"]]
    for k in ("damage", "contact", "thermal", "mixed"):
        if c[k]:
            t.append(k)
    if s.solver != "verlet":
        t.append("solver " + s.solver)
    return t


def compare(o1, o2, perm=None, rtol=1e-7, floors=None, skip=()):
    """Compares all fields of two results at all times. perm: point i of o1 is point perm[i] of o2.

    Returns None or a message. Every field is judged against its largest magnitude over the run.
    """
    if o1.nt != o2.nt:
        return "%d output steps against %d" % (o1.nt, o2.nt)
    if not np.allclose(o1.times, o2.times, rtol=1e-12, atol=0):
        return "output times differ: %s and %s" % (o1.times.tolist(), o2.times.tolist())
    floors = floors or {}
    for kind in ("nodal", "elem", "glob"):
        a, b = getattr(o1, kind), getattr(o2, kind)
        if set(a) != set(b):
            return "different %s variables: %s and %s" % (kind, sorted(a), sorted(b))
        groups = {}
        for name in a:
            base = name[:-2] if kind == "elem" and len(name) > 2 and name[-2:-1] in "XYZ" and name[-1] in "XYZ" else (
                name[:-1] if name[-1:] in "XYZ" else name)
            groups.setdefault(base, []).append(name)
        for base, names in groups.items():
            if base in skip:
                continue
            A = np.stack([a[k] for k in names])
            B = np.stack([b[k] for k in names])
            if perm is not None and kind != "glob":
                B = B[..., perm]
            if A.shape != B.shape:
                return "%s has different sizes" % base
            fin = np.isfinite(A) | np.isfinite(B)
            scale = max(np.max(np.abs(A[fin]), initial=0), np.max(np.abs(B[fin]), initial=0))
            tol = rtol * scale + floors.get(base, 0.0)
            bad = ~((np.abs(A - B) <= tol) | (np.isnan(A) & np.isnan(B)))
            if bad.any():
                w = np.argwhere(bad)[0]
                return "%s differs at output %d%s: %r and %r (largest magnitude %g, tolerance %g, %d values differ)" % (
                    names[w[0]], w[1], "" if kind == "glob" else ", point %d" % (w[2] + 1), float(A[tuple(w)]),
                    float(B[tuple(w)]), scale, tol, int(bad.sum()))
    return None


def floors(s):
    """Absolute rounding floors of the fields, from the rounding of positions."""
    eps = 4e-15 * (np.abs(s.x).max() + s.h)
    K = np.max(s.K) + np.max(s.mu)
    f = 200 * eps * K / s.h ** 2
    t = s.dt * max(s.steps, 1)
    return {"Force_Density": f, "Contact_Force_Density": f, "Displacement": 200 * eps, "Velocity": 200 * eps / s.dt + f / s.rho * t,
            "Dilatation": 200 * eps / s.h, "Cauchy_Stress": 200 * eps / s.h * K, "Von_Mises_Stress": 400 * eps / s.h * K,
            "Unrotated_Cauchy_Stress": 200 * eps / s.h * K, "Deformation_Gradient": 200 * eps / s.h, "Lambda": 0.0}


def given_up(o):
    """A tag for runs in which a damage model gives up points."""
    return ["points given up"] if "Flying_Point_Flag" in o.elem and (o.elem["Flying_Point_Flag"] > 0).any() else []
