"""Generated grids tile the described body and bond it correctly."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case is a generated box or hollow cylinder with its size, subdivision, horizon and number of processes. It is "
        "non-trivial if the grid has at least eight cells and at least one bond.")
TECHNIQUE = ("property-based testing of generated grids against the positions, volumes and bonds that follow from their "
             "description, and between numbers of processes")
LEVEL_NOTE = ("Boxes of up to 10 cells a side and 400 cells, in any aspect ratio and position, horizons from less than one cell "
              "to more than the box; cylinders of up to 5 rings; 1 to 4 processes. The bonds of boxes are observed through "
              "their number and the forces of a displaced body.")
ASSUMPTIONS = ["distances that tie with the horizon are generated only on whole numbers, where they are exact",
               "for cylinders, the bonds are only compared between numbers of processes"]
QUICK = dict(examples=3000, cap_s=21)
THOROUGH = dict(examples=50000, cap_s=1800)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 2, 3, 4]))
    kind = draw(st.sampled_from(["box", "box", "box", "cylinder"]))
    cap = 200 if tier == "quick" else 600
    dims = [draw(st.integers(1, 10)) for _ in range(3)]
    while np.prod(dims) < 8 * np_:
        dims[int(np.argmin(dims))] += 1
    while np.prod(dims) > cap:
        dims[int(np.argmax(dims))] -= 1
    return {"np": np_, "kind": kind, "dims": dims, "seed": draw(gen.seeds), "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])),
            "whole": draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3])), "rings": draw(st.integers(1, 4)), "factor": draw(st.sampled_from([0.7, 1.2, 1.8, 2.6, 3.4, 6.1])),
            "sphere": draw(st.sampled_from([True, True, False])), "motion": draw(gen.motions(kinds=("waves",), amps=(1e-3, 1e-2)))}


def strategy(tier):
    return cases(tier)


def deck(disc, hor, outs, bc):
    return {"Discretization": dict(disc, Type="PdQuickGrid"), "Materials": {"m": dict(gen.ELASTIC)},
            "Blocks": {"b": {"Block Names": "block_1", "Material": "m", "Horizon": float(hor)}},
            "Boundary Conditions": bc,
            "Solver": {"Verbose": False, "Initial Time": 0.0, "Final Time": 0.0, "Verlet": {"Fixed dt": 1.0}},
            "Output": {"Output File Type": "ExodusII", "Output Filename": "out", "Output Frequency": 1, "Output Variables": {v: True for v in outs}}}


OUTS = ["Volume", "Number_Of_Neighbors", "Neighborhood_Volume", "Displacement", "Force_Density", "Dilatation", "Weighted_Volume", "Radius", "Element_Id"]


def evaluate(case):
    return box(case) if case["kind"] == "box" else cylinder(case)


def box(case):
    r = gen.rng(case["seed"])
    dims = np.array(case["dims"])
    cell = case["scale"] * (r.uniform(0.6, 1.6, 3) if r.random() < 0.7 else np.ones(3))
    L = cell * dims
    o0 = case["scale"] * r.uniform(-5, 5, 3) if r.random() < 0.7 else np.zeros(3)
    hor = float(case["factor"] * cell.max() * r.uniform(0.95, 1.05))
    whole = case.get("whole", 0) if case["sphere"] else 0
    if whole:
        # whole numbers: distances are exact, so that ties with the horizon are meaningful
        cell, o0, hor = np.ones(3), r.integers(-4, 5, 3).astype(float), float(whole)
        L = cell * dims
    n = int(np.prod(dims))
    g = np.stack(np.meshgrid(*[np.arange(d) for d in dims], indexing="ij"), -1).reshape(-1, 3)
    x = o0 + (g + 0.5) * cell
    d = gen.dist(x)
    if not whole and np.any(np.abs(d - hor) < 1e-9 * hor):
        return Discard("a distance ties with the horizon")
    e = {}
    for k, c in enumerate("XYZ"):
        e[c + " Origin"] = float(o0[k])
        e[c + " Length"] = float(L[k])
        e["Number Points " + c] = int(dims[k])
    disc = {"TensorProduct3DMeshGenerator": e}
    if case["sphere"]:
        disc["NeighborhoodType"] = "Spherical"
    h = float(cell.min())
    bc = dict(gen.all_points(n))
    bc.update(gen.initial_motion(gen.motion_expressions(case["motion"], x, h)))
    o = runner.simulate(deck(disc, hor, OUTS, bc), {}, case["np"], points=n)
    tags = ["box", "np=%d" % case["np"], "spherical" if case["sphere"] else "default norm", "ties with the horizon" if whole else "horizon %.1f cells" % case["factor"]]
    V = o.elem["Volume"][0]
    if not np.allclose(V, np.prod(cell), rtol=1e-10, atol=0):
        return Bad("cell volumes %s, expected %r" % (np.unique(V).tolist()[:5], float(np.prod(cell))))
    if abs(V.sum() - np.prod(L)) > 1e-10 * np.prod(L):
        return Bad("volumes add up to %r, the box has %r" % (float(V.sum()), float(np.prod(L))))
    q = (o.coords - o0) / cell - 0.5
    at = np.rint(q).astype(int)
    if np.abs(q - at).max() > 1e-7 * (1 + np.abs(o0).max() / h * 1e-8):
        w = int(np.argmax(np.abs(q - at).max(1)))
        return Bad("point %d at %s is no cell centre" % (w + 1, o.coords[w].tolist()))
    if at.min() < 0 or np.any(at >= dims) or len(np.unique(at, axis=0)) != n:
        return Bad("the points are not one per cell: cells %s" % at.tolist()[:20])
    X = o0 + (at + 0.5) * cell
    cnt = o.elem["Number_Of_Neighbors"][0]
    if case["sphere"]:
        b = ref.Body(X, V, hor if not whole else hor * (1 - 1e-8))
        want = b.M.sum(1)
        if not np.array_equal(cnt, want):
            w = int(np.argmax(cnt != want))
            return Bad("point %d (cell %s of %s) has %d bonds, %d points are within the horizon %r" % (w + 1, at[w].tolist(), dims.tolist(), cnt[w], want[w], hor))
        bad = forces(o, b, gen.ELASTIC)
        if bad:
            return Bad(bad)
        some = want.any()
    else:
        # the default neighbourhood holds at least the sphere and at most the box around it
        a = (gen.dist(X) < hor).sum(1) - 1
        inf = np.all(np.abs(X[:, None] - X[None]) <= hor + cell, axis=-1).sum(1) - 1
        if np.any(cnt < a) or np.any(cnt > inf):
            w = int(np.argmax((cnt < a) | (cnt > inf)))
            return Bad("point %d (cell %s of %s) has %d bonds, %d are within the horizon and %d in the box around it" % (w + 1, at[w].tolist(), dims.tolist(), cnt[w], a[w], inf[w]))
        some = cnt.any()
    bad = same_on_one(case, disc, hor, bc, o)
    return Bad(bad) if bad else Ok(case_key(case) if n >= 8 and some else None, tags)


def same_on_one(case, disc, hor, bc, o):
    if case["np"] == 1:
        return None
    p = runner.simulate(deck(disc, hor, OUTS, bc), {}, 1, points=len(o.ids))
    if not np.array_equal(p.coords, o.coords):
        return "coordinates on one and on %d processes differ" % case["np"]
    for v in ("Volume", "Number_Of_Neighbors", "Neighborhood_Volume", "Weighted_Volume"):
        a, b = o.elem[v][0], p.elem[v][0]
        if not np.allclose(a, b, rtol=1e-12, atol=0):
            w = int(np.argmax(np.abs(a - b)))
            return "%s of point %d is %r on %d processes and %r on one" % (v, w + 1, float(a[w]), case["np"], float(b[w]))
    return None


def forces(o, b, mat):
    n = b.n
    y = b.x + exo.vec(o, "Displacement", 0)
    T, th = ref.lps(b, y, mat["Bulk Modulus"], mat["Shear Modulus"])
    F, mag = b.assemble(T), b.magnitude(T)
    got = exo.vec(o, "Force_Density", 0)
    m = b.weighted_volume()
    noise = 1e-13 * (np.abs(b.x).max() + b.hor.max()) * 20 * (mat["Bulk Modulus"] + mat["Shear Modulus"]) * 15
    floor = np.zeros(n)
    np.add.at(floor, b.I, noise / m[b.I] * b.VJ)
    np.add.at(floor, b.J, noise / m[b.I] * b.VI)
    bad = np.where(~(np.abs(got - F).max(1) <= 1e-9 * mag + floor))[0]
    if len(bad):
        i = int(bad[0])
        return "force density of point %d is %s, the points within the horizon give %s" % (i + 1, got[i].tolist(), F[i].tolist())
    w = o.elem["Weighted_Volume"][0]
    if not np.allclose(w, m, rtol=1e-9, atol=0):
        return "weighted volumes are %s, the points within the horizon give %s" % (w.tolist()[:6], m.tolist()[:6])
    return None


def cylinder(case):
    r = gen.rng(case["seed"], 1)
    nr = case["rings"]
    s = case["scale"]
    dr = s * r.uniform(0.5, 1.5)
    ri = dr * r.uniform(1.0, 3.0)
    ro = ri + nr * dr
    length = dr * r.uniform(1.2, 3.7)
    c = s * r.uniform(-3, 3, 2) if r.random() < 0.6 else np.zeros(2)
    z0 = float(s * r.uniform(-3, 3)) if r.random() < 0.6 else 0.0
    hor = float(min(case["factor"], 2.6) * dr * 1.0123)
    disc = {"TensorProductCylinderMeshGenerator": {"Inner Radius": float(ri), "Outer Radius": float(ro), "Cylinder Length": float(length),
            "Number Points Radius": nr, "Ring Center x": float(c[0]), "Ring Center y": float(c[1]), "Z Origin": z0}}
    if case["sphere"]:
        disc["NeighborhoodType"] = "Spherical"
    bc = {}
    o = runner.simulate(deck(disc, hor, OUTS, bc), {}, case["np"])
    n = len(o.ids)
    if not np.array_equal(o.ids, np.arange(1, n + 1)) or not np.array_equal(o.elem_ids, o.ids):
        return Bad("the output does not hold every point once")
    total = np.pi * (ro ** 2 - ri ** 2) * length
    V = o.elem["Volume"][0]
    if abs(V.sum() - total) > 1e-9 * total:
        return Bad("volumes add up to %r, the hollow cylinder has %r" % (float(V.sum()), float(total)))
    p = o.coords - np.array([c[0], c[1], z0])
    rad = np.hypot(p[:, 0], p[:, 1])
    size = np.abs(o.coords).max()
    k = np.rint((rad - ri) / dr - 0.5).astype(int)
    tol = 1e-9 * dr + 1e-13 * size
    if np.abs(rad - ri - (k + 0.5) * dr).max() > tol or k.min() < 0 or k.max() >= nr:
        return Bad("radii %s are not the %d cell centres between %r and %r" % (np.unique(np.round(rad / dr, 6)).tolist()[:8], nr, float(ri), float(ro)))
    per = np.bincount(k, minlength=nr)
    if len(set(per.tolist())) != 1:
        return Bad("rings have different numbers of points %s" % per.tolist())
    zs = np.unique(np.round(p[:, 2] / dr, 7))
    nz = len(zs)
    dz = length / nz
    l = np.rint(p[:, 2] / dz - 0.5).astype(int)
    if np.abs(p[:, 2] - (l + 0.5) * dz).max() > tol or l.min() < 0 or l.max() >= nz:
        return Bad("axial positions are not the centres of %d cells of the length" % nz)
    if n % (nr * nz):
        return Bad("%d points do not fill %d rings in %d layers" % (n, nr, nz))
    nray = n // (nr * nz)
    ang = np.mod(np.arctan2(p[:, 1], p[:, 0]), 2 * np.pi)
    dth = 2 * np.pi / nray
    # rays may start anywhere, but all cells must be the same
    off = ang[0]
    q = (ang - off) / dth
    a = np.rint(q).astype(int)
    if np.abs(q - a).max() > 1e-6:
        return Bad("angles are not equally spaced by %r" % float(dth))
    if len(np.unique(np.stack([k, l, np.mod(a, nray)], 1), axis=0)) != n:
        return Bad("the points are not one per cell of the polar grid")
    want = rad * dr * dth * dz
    if not np.allclose(V, want, rtol=1e-9, atol=0):
        w = int(np.argmax(np.abs(V - want)))
        return Bad("point %d at radius %r has volume %r, its cell has %r" % (w + 1, float(rad[w]), float(V[w]), float(want[w])))
    bad = same_on_one(case, disc, hor, bc, o)
    tags = ["cylinder", "np=%d" % case["np"], "rings %d" % nr]
    return Bad(bad) if bad else Ok(case_key(case) if n >= 8 else None, tags)
