"""Pre-crack surfaces remove exactly the bonds that cross them."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case is a random cloud with one to three surfaces, given as bond filters or as initial damage. It is non-trivial "
        "if at least one bond inside the horizon crosses a surface and at least one does not.")
TECHNIQUE = "property-based testing against direct computation of segment and surface intersections"
LEVEL_NOTE = ("Random clouds of up to 90 points, 1 to 4 processes, rectangles, disks, triangulated and quadrilateral surfaces "
              "in any position; the set of bonds is observed through the number of neighbours, the volume of the neighbours, "
              "the damage, and the forces of a displaced body.")
ASSUMPTIONS = ["segments that touch a surface within rounding are not generated",
               "normals and edge directions are unit vectors, quadrilaterals are flat and convex"]
QUICK = dict(examples=3000, cap_s=21)
THOROUGH = dict(examples=50000, cap_s=1800)


@st.composite
def surfaces(draw, initial):
    kinds = ["plane", "plane", "mesh tri", "mesh quad"] + ([] if initial else ["disk", "disk"])
    return {"kind": draw(st.sampled_from(kinds)), "seed": draw(gen.seeds),
            "frame": draw(st.sampled_from(["any", "any", "axis"])), "size": draw(st.sampled_from([0.4, 1.0, 2.5]))}


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 2, 3, 4]))
    initial = draw(st.sampled_from([False, False, True]))
    big = 90 if tier == "quick" else 200
    cloud = draw(gen.clouds(min_points=max(8, 8 * np_), max_points=big, max_side=7,
                            kinds=("lattice", "lattice", "lattice", "random", "clusters", "plane")))
    return {"np": np_, "cloud": cloud, "initial": initial, "surfaces": draw(st.lists(surfaces(initial), min_size=1, max_size=3)),
            "factor": draw(st.sampled_from([1.1, 1.6, 2.3, 3.1])), "nblocks": draw(st.sampled_from([1, 1, 2])),
            "omit": draw(st.sampled_from([None, None, "All"])), "motion": draw(gen.motions(kinds=("waves",)))}


def strategy(tier):
    return cases(tier)


def frame(r, kind):
    if kind == "axis":
        k = int(r.integers(3))
        e = np.eye(3)
        n, u = e[k] * r.choice([-1, 1]), e[(k + int(r.integers(1, 3))) % 3] * r.choice([-1, 1])
    else:
        n = r.normal(size=3)
        n /= np.linalg.norm(n)
        u = np.cross(n, r.normal(size=3))
        u /= np.linalg.norm(u)
    return n, u


def make(sf, x, h):
    """A surface: the entry of the deck, its file, and a function telling crossing and doubt of segments."""
    r = gen.rng(sf["seed"])
    n, u = frame(r, sf["frame"])
    c = x[int(r.integers(len(x)))] + h * r.uniform(-0.5, 0.5, 3)
    L = sf["size"] * h * r.uniform(0.6, 1.6, 2) * max(1.0, len(x) ** (1 / 3.0) / 2)
    v = np.cross(u, n)
    if sf["kind"] == "plane":
        e = {"Type": "Rectangular_Plane", "Bottom_Length": float(L[0]), "Side_Length": float(L[1])}
        c = c - 0.5 * L[0] * u - 0.5 * L[1] * v
        for k in range(3):
            e["Normal_" + "XYZ"[k]] = float(n[k])
            e["Lower_Left_Corner_" + "XYZ"[k]] = float(c[k])
            e["Bottom_Unit_Vector_" + "XYZ"[k]] = float(u[k])
        return e, None, [polygon(np.array([c, c + L[0] * u, c + L[0] * u + L[1] * v, c + L[1] * v]))]
    if sf["kind"] == "disk":
        e = {"Type": "Disk", "Radius": float(L[0] * 0.6)}
        for k in range(3):
            e["Normal_" + "XYZ"[k]] = float(n[k])
            e["Center_" + "XYZ"[k]] = float(c[k])
        return e, None, [disk(c, n, L[0] * 0.6)]
    # a patch of cells
    a, b = int(r.integers(1, 4)), int(r.integers(1, 3))
    gx, gy = np.meshgrid(np.linspace(-0.5, 0.5, a + 1), np.linspace(-0.5, 0.5, b + 1), indexing="ij")
    flat = sf["kind"] == "mesh quad"
    shear = r.uniform(-0.3, 0.3)
    bump = np.zeros(gx.shape) if flat else r.uniform(-0.2, 0.2, gx.shape) * h
    P = (c + (gx + shear * gy)[..., None] * L[0] * u + (gy * (1 + 0.3 * gx))[..., None] * L[1] * v + bump[..., None] * n).reshape(-1, 3)
    at = lambda i, j: i * (b + 1) + j
    tri, quad = [], []
    for i in range(a):
        for j in range(b):
            q = [at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)]
            if r.random() < 0.5:
                q = q[::-1]
            k = int(r.integers(4))
            q = q[k:] + q[:k]
            if flat and r.random() < 0.8:
                quad.append(q)
            else:
                tri += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
    blocks = ([("TRI3" if r.random() < 0.5 else "tri", tri)] if tri else []) + ([("QUAD4" if r.random() < 0.5 else "QUAD", quad)] if quad else [])
    if r.random() < 0.5:
        blocks = blocks[::-1]
    cells = [polygon(P[q]) for q in tri + quad]
    return {"Type": "Exodus Mesh", "File Name": None}, exo.surface_file(P, blocks), cells


def polygon(V):
    """Convex flat polygon."""
    n = np.cross(V[1] - V[0], V[2] - V[0])
    n /= np.linalg.norm(n)
    w = 1.0 if np.dot(np.cross(V[1] - V[0], V[2] - V[1]), n) > 0 else -1.0
    edges = [(V[k], np.cross(n, V[(k + 1) % len(V)] - V[k]) * w / np.linalg.norm(V[(k + 1) % len(V)] - V[k])) for k in range(len(V))]

    def depth(q):
        """Distance to the nearest edge line, positive inside."""
        return np.min([(q - p) @ m for p, m in edges], axis=0)
    return V[0], n, depth


def disk(c, n, R):
    return c, n, lambda q: R - np.linalg.norm(q - c, axis=-1)


def crossing(p, q, cell, eps):
    """For segments p-q: crosses, doubtful."""
    c, n, depth = cell
    a, b = (p - c) @ n, (q - c) @ n
    with np.errstate(divide="ignore", invalid="ignore"):
        t = np.where(a != b, a / (a - b), 0.5)
    hit = p + t[:, None] * (q - p)
    d = depth(hit)
    across = (a * b < 0)
    near = (np.abs(a) < eps) | (np.abs(b) < eps)
    # a point on the plane: in doubt if the plane is inside the surface near it
    touch = near & ((np.abs(a) < eps) & (depth(p) > -eps) | (np.abs(b) < eps) & (depth(q) > -eps))
    # nearly parallel segments close to the plane
    return across & (d > 0) & ~near, (across & (np.abs(d) < eps)) | touch


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n = len(x)
    vol = gen.volumes(case["cloud"], n, h)
    hor = case["factor"] * h
    nb = case["nblocks"]
    blk = gen.assign_blocks(x, nb, "slabs", case["cloud"]["seed"])
    if blk is None:
        return Discard("too few points for the blocks")
    A = blk[:, None] == blk[None] if case["omit"] == "All" else None
    b0 = ref.Body(x, vol, hor, "One", A)
    if b0.ambiguous:
        return Discard("a distance ties with the horizon")
    cut = np.zeros(len(b0.I), bool)
    doubt = np.zeros(len(b0.I), bool)
    eps = 1e-7 * h + 1e-12 * np.abs(x).max()
    entries, files = {}, {}
    for k, sf in enumerate(case["surfaces"]):
        e, data, cells = make(sf, x, h)
        if data is not None:
            e["File Name"] = "surface%d.g" % k
            files[e["File Name"]] = data
        entries["surface %d" % k] = e
        for cell in cells:
            c, d = crossing(x[b0.I], x[b0.J], cell, eps)
            cut |= c
            doubt |= d
    if doubt.any():
        return Discard("a bond touches a surface")
    C = np.zeros((n, n), bool)
    C[b0.I[cut], b0.J[cut]] = True
    disc = {"Omit Bonds Between Blocks": case["omit"]} if case["omit"] else {}
    damage = None
    block = {"Material": "m", "Horizon": float(hor)}
    outs = ["Number_Of_Neighbors", "Neighborhood_Volume", "Force_Density", "Dilatation", "Displacement"]
    if case["initial"]:
        damage = {"cracks": {"Damage Model": "Initial Damage", "Bond Filters": entries}}
        block["Damage Model"] = "cracks"
        outs.append("Damage")
        M = b0.M
    else:
        disc["Bond Filters"] = entries
        M = b0.M & ~C
    blocks = {"b%d" % k: dict(block, **{"Block Names": "block_%d" % (k + 1)}) for k in range(nb)}
    bc = dict(gen.all_points(n))
    exprs = gen.motion_expressions(case["motion"], x, h)
    bc.update(gen.initial_motion(exprs))
    p, f = gen.text_deck(x, vol, blk + 1, blocks, {"m": dict(gen.ELASTIC)}, outs, disc=disc, damage=damage, bc=bc, files=files)
    o = runner.simulate(p, f, case["np"], points=n)
    tags = ["np=%d" % case["np"], "initial damage" if case["initial"] else "filter"] + [s["kind"] for s in case["surfaces"]]
    cnt, nv = o.elem["Number_Of_Neighbors"][0], o.elem["Neighborhood_Volume"][0]
    want, wv = M.sum(1), vol + M @ vol
    bad = np.where((cnt != want) | ~(np.abs(nv - wv) <= 1e-11 * wv))[0]
    if len(bad):
        i = int(bad[0])
        return Bad("point %d (%s) has %g bonds and neighbourhood volume %r; expected are %d bonds and volume %r (%d bonds inside the horizon, %d of them cross a surface)" % (
            i + 1, x[i].tolist(), cnt[i], float(nv[i]), want[i], float(wv[i]), b0.M[i].sum(), C[i].sum()))
    b = ref.Body(x, vol, hor, "One", M)
    dmg = C[b.I, b.J].astype(float) if case["initial"] else np.zeros(len(b.I))
    if case["initial"]:
        tot = M.sum(1)
        wd = np.divide(b.sum_bonds(dmg), tot, out=np.zeros(n), where=tot > 0)
        got = o.elem["Damage"][0]
        bad = np.where(~(np.abs(got - wd) <= 1e-12))[0]
        if len(bad):
            i = int(bad[0])
            return Bad("point %d (%s) reports damage %r; %d of its %d bonds cross a surface" % (i + 1, x[i].tolist(), float(got[i]), C[i].sum(), tot[i]))
    # the forces tell which bonds act; bulk and shear modulus as in gen.ELASTIC
    y = x + exo.vec(o, "Displacement", 0)
    T, th = ref.lps(b, y, gen.ELASTIC["Bulk Modulus"], gen.ELASTIC["Shear Modulus"], dmg)
    F, mag = b.assemble(T), b.magnitude(T)
    got = exo.vec(o, "Force_Density", 0)
    # rounding of the bond lengths relative to the elongation
    noise = 1e-13 * (np.abs(x).max() + h) * 20 * (gen.ELASTIC["Bulk Modulus"] + gen.ELASTIC["Shear Modulus"]) * 15
    m = b.weighted_volume()
    floor = np.zeros(n)
    np.add.at(floor, b.I, noise / m[b.I] * b.VJ)
    np.add.at(floor, b.J, noise / m[b.I] * b.VI)
    bad = np.where(~(np.abs(got - F).max(1) <= 1e-9 * mag + floor))[0]
    if len(bad):
        i = int(bad[0])
        return Bad("force density of point %d (%s) is %s, the bonds that do not cross a surface give %s" % (i + 1, x[i].tolist(), got[i].tolist(), F[i].tolist()))
    return Ok(case_key(case) if cut.any() and not cut.all() else None, tags)
