"""Volumes, centroids and positions of mesh cells against exact geometry."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, runner, server
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case is one triangle, tetrahedron or hexahedron with up to 30 spheres around it. It is non-trivial if at least two of the "
        "answers inside, intersects and outside occur.")
TECHNIQUE = ("property-based testing of the geometry functions in process, against exact formulas for polyhedra and distances between "
             "points and polyhedra computed with numpy")
LEVEL_NOTE = ("Random flat-faced cells (affine and projective images of the unit cells, aspect ratios up to 100, sizes 1e-6 to 1e4, far "
              "from the origin), spheres over vertices, edges, faces and in the interior with radii down to 1e-6 from tangency.")
ASSUMPTIONS = ["spheres within 1e-7 (relative) of touching the cell may be classified either way"]
BUILD = {"rel": ["verif_geometry"]}
QUICK = dict(examples=100000, cap_s=20)
THOROUGH = dict(examples=2000000, cap_s=1500)
CUBE = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]], float)
TET = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float)
# outward faces
FACES = {3: [[0, 1, 2]], 4: [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]],
         8: [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]}


@st.composite
def cases(draw, tier):
    return {"nodes": draw(st.sampled_from([3, 4, 4, 8, 8])), "shape": draw(st.sampled_from(["unit", "affine", "projective"])),
            "aspect": draw(st.sampled_from([1.0, 1.0, 10.0, 100.0])), "scale": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e4])),
            "offset": draw(st.sampled_from([0.0, 0.0, 3.0, -300.0])), "spheres": draw(st.integers(1, 30)), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def cell(case):
    r = gen.rng(case["seed"], 51)
    n = case["nodes"]
    x = {3: TET[:3], 4: TET, 8: CUBE}[n].copy()
    if case["shape"] == "projective":
        # keeps faces flat and cells convex
        x = x / (1 + x @ r.uniform(0, 1.5, 3))[:, None]
    if case["shape"] != "unit":
        q = np.linalg.qr(r.normal(size=(3, 3)))[0]
        p = np.linalg.qr(r.normal(size=(3, 3)))[0]
        a = q @ np.diag(case["aspect"] ** r.uniform(-1, 0, 3)) @ p
        if np.linalg.det(a) < 0:
            a[0] *= -1
        x = x @ a.T
    # another numbering of the same cell
    if n == 8:
        for _ in range(r.integers(0, 4)):
            x = x[[1, 2, 3, 0, 5, 6, 7, 4]]
        if r.integers(0, 2):
            x = x[[0, 4, 5, 1, 3, 7, 6, 2]]
    else:
        x = x[[[0, 1, 2, 3], [1, 2, 0, 3], [2, 0, 1, 3]][r.integers(0, 3)][:n]]
    return (x + case["offset"] * r.uniform(-1, 1, 3)) * case["scale"]


def solid(x):
    """Volume and centroid from the faces."""
    c = x.mean(0)
    v, m = 0.0, np.zeros(3)
    for f in FACES[len(x)]:
        for k in range(1, len(f) - 1):
            t = x[[f[0], f[k], f[k + 1]]] - c
            d = np.linalg.det(t) / 6
            v += d
            m += d * t.sum(0) / 4
    return v, c + m / v


def to_triangle(p, a, b, c):
    """Distance of a point to a triangle."""
    ab, ac, ap = b - a, c - a, p - a
    n = np.cross(ab, ac)
    n2 = n @ n
    w = np.cross(ab, ap) @ n / n2
    v = np.cross(ap, ac) @ n / n2
    best = np.inf
    if v >= 0 and w >= 0 and v + w <= 1:
        best = abs(ap @ n) / np.sqrt(n2)
    for s, e in ((a, b), (b, c), (c, a)):
        d = e - s
        t = min(1.0, max(0.0, (p - s) @ d / (d @ d)))
        best = min(best, np.linalg.norm(p - s - t * d))
    return best


def surface(x, p):
    """Distance of a point to the surface of the cell, and whether the point is inside."""
    inside = len(x) > 3
    best = np.inf
    for f in FACES[len(x)]:
        for k in range(1, len(f) - 1):
            best = min(best, to_triangle(p, x[f[0]], x[f[k]], x[f[k + 1]]))
        if inside:
            n = np.cross(x[f[1]] - x[f[0]], x[f[2]] - x[f[0]])
            inside = (p - x[f[0]]) @ n < 0
    return best, inside


def evaluate(case):
    x = cell(case)
    n = len(x)
    r = gen.rng(case["seed"], 52)
    size = np.linalg.norm(x - x.mean(0), axis=1).max()
    away = np.abs(x).max() / size
    balls, truth = [], []
    for _ in range(case["spheres"]):
        how = r.integers(0, 5)
        w = r.uniform(0, 1, n) if how else r.dirichlet(np.ones(n) * 0.3)
        if how == 1:
            w = np.eye(n)[r.integers(0, n)]
        elif how == 2:
            i, j = r.integers(0, n, 2)
            w = r.uniform() * np.eye(n)[i] + np.eye(n)[j]
        elif how == 3:
            f = FACES[n][r.integers(0, len(FACES[n]))]
            w = np.zeros(n)
            w[f] = r.uniform(0, 1, len(f))
        c = (w / w.sum()) @ x + r.normal(size=3) * size * 10.0 ** r.uniform(-3, 0.7)
        d, inside = surface(x, c)
        far = np.linalg.norm(x - c, axis=1).max()
        near = np.linalg.norm(x - c, axis=1).min()
        base = [d, far, near, r.uniform(0, 1.5) * far, d][r.integers(0, 5)]
        radius = base * (1 + r.choice([-1, 1]) * 10.0 ** r.uniform(-6, -0.3))
        margin = (1e-7 + 1e-13 * away) * max(size, radius)
        if min(abs(radius - d), abs(radius - far), abs(radius - near)) < margin or radius <= 0 or d < margin:
            continue
        # a sphere that lies in the cell without reaching its surface is a listed finding, a few are enough
        if radius < d and inside and r.uniform() > 0.01:
            continue
        balls.append([float(v) for v in c] + [float(radius)])
        if radius < d and inside:
            truth.append("within")
        else:
            truth.append("inside" if far < radius else "outside" if d > radius else "intersects")
    text = "%d %d\n%s\n%s\n" % (n, len(balls), " ".join(repr(float(v)) for v in x.ravel()),
                                " ".join(repr(float(v)) for b in balls for v in b))
    try:
        lines = server.ask("verif_geometry", text)
    except runner.Broken as e:
        return Bad("no answer for a cell of %d nodes: %s" % (n, e))
    if n > 3:
        v, c = solid(x)
        got = [float(t) for t in lines[0].split()]
        tol = 1e-9 * (1 + away)
        for name, g in zip(("volume with centroid", "volume", "volume of a list of nodes"), got[:3]):
            if not abs(g - v) <= (1e-10 + 1e-12 * case["aspect"] ** 3 * (1 + away)) * v:
                return Bad("%d nodes: %s is %.15g, not %.15g" % (n, name, g, v))
        centroids = [got[3:6]] + ([[float(t) for t in lines[1].split()]] if n == 4 else [])
        for g in centroids:
            if not np.abs(np.array(g) - c).max() <= tol * size * case["aspect"]:
                return Bad("%d nodes: centroid is %s, not %s" % (n, g, c.tolist()))
    tags, flaw = ["nodes=%d" % n], None
    for line, want, b in zip(lines[len(lines) - len(balls):], truth, balls):
        name, far = line.split()
        if not abs(float(far) - np.linalg.norm(x - np.array(b[:3]), axis=1).max()) <= 1e-12 * (1 + away) * max(size, float(far)):
            return Bad("%d nodes: greatest distance of a node to %s is reported as %s" % (n, b[:3], far))
        tags.append(want)
        if want == "within":
            if name == "outside":
                flaw = flaw or b
            elif name != "intersects":
                return Bad("%d nodes: sphere %s inside of the cell is reported as %s" % (n, b, name))
        elif name != want:
            return Bad("%d nodes: cell and sphere %s are reported as %s, not %s" % (n, b, name, want))
    if flaw:
        return Bad("%d nodes: sphere %s inside of the cell is reported as outside" % (n, flaw), finding="within")
    return Ok(case_key(case) if len(set(truth)) > 1 else None, sorted(set(tags)))
