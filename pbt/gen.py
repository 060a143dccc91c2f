"""Shared generators: point clouds, volumes, blocks, and a plain deck around them.

A case holds structure and a seed; the bulk data is expanded from the seed here.
"""
import numpy as np
from hypothesis import strategies as st

from . import deck as deckmod

seeds = st.integers(0, 2**31 - 1)


def rng(seed, *more):
    return np.random.default_rng([int(seed)] + [int(m) for m in more])


@st.composite
def clouds(draw, min_points=2, max_points=60, kinds=("lattice", "lattice", "random", "clusters", "plane", "line"),
           max_side=6, min_side=1, jitters=(0.0, 0.1, 0.3), scales=(1.0, 1.0, 1e-3, 1e3), offsets=(0.0, 0.0, 1.0, -50.0)):
    kind = draw(st.sampled_from(kinds))
    c = {"kind": kind, "seed": draw(seeds), "scale": draw(st.sampled_from(scales)),
         "offset": draw(st.sampled_from(offsets))}
    if kind == "lattice":
        a = draw(st.integers(min_side, max_side))
        b = draw(st.integers(min_side, max_side))
        d = draw(st.integers(min_side, max_side))
        while a * b * d < min_points:
            a += 1
        while a * b * d > max_points:
            if d > min_side:
                d -= 1
            elif b > min_side:
                b -= 1
            else:
                a -= 1
        c["dims"] = [a, b, d]
        c["jitter"] = draw(st.sampled_from(jitters))
    else:
        c["n"] = draw(st.integers(min_points, max_points))
    return c


def cloud_size(c):
    return int(np.prod(c["dims"])) if c["kind"] == "lattice" else c["n"]


def points(c):
    """Coordinates of a cloud and its typical spacing."""
    r = rng(c["seed"], 1)
    if c["kind"] == "lattice":
        a, b, d = c["dims"]
        g = np.stack(np.meshgrid(np.arange(a), np.arange(b), np.arange(d), indexing="ij"), -1).reshape(-1, 3) * 1.0
        x = g + r.uniform(-1, 1, g.shape) * c["jitter"] * 0.9
        h = 1.0
        r.shuffle(x, axis=0)
    else:
        n = c["n"]
        side = max(1.0, n ** (1 / 3.0))
        h = 1.0
        if c["kind"] == "random":
            x = r.uniform(0, side, (n, 3))
        elif c["kind"] == "clusters":
            k = max(1, n // 8)
            centres = r.uniform(0, 2 * side, (k, 3))
            x = centres[r.integers(0, k, n)] + r.normal(0, 0.6, (n, 3))
        elif c["kind"] == "plane":
            x = r.uniform(0, n ** 0.5, (n, 3))
            x[:, r.integers(0, 3)] = 0.25
        else:
            x = np.zeros((n, 3))
            x[:, r.integers(0, 3)] = r.uniform(0, n, n)
        # keep points apart: coincident points are not a body
        for _ in range(200):
            d = np.linalg.norm(x[:, None] - x[None], axis=-1)
            np.fill_diagonal(d, 9)
            close = np.unique(np.argwhere(d < 0.05)[:, 0])
            if len(close) == 0:
                break
            free = np.ptp(x, axis=0) > 0
            x[close] += r.normal(0, 0.2, (len(close), 3)) * free
    s = c["scale"]
    return (x + c["offset"]) * s, h * s


def volumes(c, n, h, spread=0.5):
    return rng(c["seed"], 2).uniform(1 - spread, 1 + spread, n) * h ** 3


def dist(x):
    return np.linalg.norm(x[:, None, :] - x[None, :, :], axis=-1)


def assign_blocks(x, nblocks, how, seed):
    n = len(x)
    if nblocks == 1:
        return np.zeros(n, int)
    if how == "random":
        b = rng(seed, 3).integers(0, nblocks, n)
    else:
        ax = int(rng(seed, 4).integers(0, 3))
        if np.ptp(x[:, ax]) == 0:
            ax = int(np.argmax(np.ptp(x, axis=0)))
        order = np.argsort(x[:, ax], kind="stable")
        b = np.empty(n, int)
        b[order] = (np.arange(n) * nblocks) // n
    # every block must have a point
    for k in range(nblocks):
        if not np.any(b == k):
            b[k % n] = k
    for k in range(nblocks):
        if not np.any(b == k):
            return None
    return b


ELASTIC = {"Material Model": "Elastic", "Density": 7800.0, "Bulk Modulus": 130.0e9, "Shear Modulus": 78.0e9}


def text_deck(x, vol, block_ids, blocks, materials, output, solver=None, bc=None, extra=None, disc=None,
              damage=None, contact=None, frequency=1, files=None, mesh_text=None, outname="out"):
    """Deck around a text-file discretization.

    blocks: {list name: {"Block Names":..., "Material":..., "Horizon":...}}
    """
    d = {"Type": "Text File", "Input Mesh File": "mesh.txt"}
    if disc:
        d.update(disc)
    p = {"Discretization": d, "Materials": materials, "Blocks": blocks}
    if damage:
        p["Damage Models"] = damage
    if contact:
        p["Contact"] = contact
    if bc:
        p["Boundary Conditions"] = bc
    p["Solver"] = solver or {"Verbose": False, "Initial Time": 0.0, "Final Time": 0.0,
                             "Verlet": {"Fixed dt": 1.0}}
    p["Output"] = {"Output File Type": "ExodusII", "Output Filename": outname, "Output Frequency": frequency,
                   "Output Variables": {v: True for v in output}}
    if extra:
        p.update(extra)
    f = {"mesh.txt": mesh_text if mesh_text is not None else deckmod.text_mesh(x, block_ids, vol)}
    f.update(files or {})
    return p, f


def degenerate(x, vol, A, tol=1e-3):
    """True if some neighbourhood does not span space (its shape tensor is nearly singular)."""
    for i in range(len(x)):
        xi = x[A[i]] - x[i]
        if len(xi) < 4:
            return True
        e = np.linalg.eigvalsh((xi * vol[A[i]][:, None]).T @ xi)
        if e[0] < tol * e[2]:
            return True
    return False


def relerr(a, b, scale=None):
    """Largest deviation relative to the largest magnitude (or the given scale)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return 0.0 if np.array_equal(a, b, equal_nan=True) else np.inf
    s = max(np.max(np.abs(b)), np.max(np.abs(a))) if scale is None else scale
    d = np.max(np.abs(a - b))
    return 0.0 if d == 0 else (d / s if s > 0 else np.inf)


# Motions: smooth displacement fields given to the code as expressions in x, y, z.

@st.composite
def motions(draw, amps=(1e-3, 1e-2, 0.1), kinds=("waves", "waves", "affine")):
    return {"kind": draw(st.sampled_from(kinds)), "amp": draw(st.sampled_from(amps)), "seed": draw(seeds)}


def motion_expressions(m, x, h):
    """Three expressions; displacements are of the order amp * h."""
    r = rng(m["seed"], 11)
    c = x.mean(0)
    span = max(np.ptp(x, axis=0).max(), h)
    out = []
    for k in range(3):
        g = r.uniform(-1, 1, 3) * m["amp"] * (h / span if m["kind"] == "waves" else 1.0)
        s = "%s*(x-(%s)) + %s*(y-(%s)) + %s*(z-(%s))" % (num(g[0]), num(c[0]), num(g[1]), num(c[1]), num(g[2]), num(c[2]))
        if m["kind"] == "waves":
            q = r.uniform(-2, 2, 3) / h
            s += " + %s*sin(%s*x + %s*y + %s*z + %s)" % (num(m["amp"] * h * r.uniform(0.3, 1)), num(q[0]), num(q[1]),
                                                         num(q[2]), num(r.uniform(0, 6)))
        out.append(s)
    return out


def num(v):
    """A number as written inside an expression."""
    return "(%r)" % float(v)


def initial_motion(exprs, what="Displacement", prefix="ic", node_set="Node Set All"):
    return {"%s %s %s" % (prefix, what, "xyz"[k]): {"Type": "Initial " + what, "Node Set": node_set,
                                                 "Coordinate": "xyz"[k], "Value": e}
            for k, e in enumerate(exprs) if e is not None}


def node_list(idx):
    """Zero-based point numbers as a node set."""
    return " ".join(str(int(i) + 1) for i in idx)


def all_points(n):
    return {"Node Set All": node_list(range(n))}


ELASTIC_PAIRS = ("K mu", "E nu", "K nu", "mu nu", "E mu", "K E")


def elastic_constants(K, mu, pair):
    E = 9 * K * mu / (3 * K + mu)
    nu = (3 * K - 2 * mu) / (2 * (3 * K + mu))
    d = {"K": ("Bulk Modulus", K), "mu": ("Shear Modulus", mu), "E": ("Young's Modulus", E), "nu": ("Poisson's Ratio", nu)}
    return {d[k][0]: float(d[k][1]) for k in pair.split()}


def history(path, per):
    """Load factor after each step: straight lines between the points of the path."""
    v, out = 0.0, []
    for target in path:
        for k in range(per):
            out.append(v + (target - v) * (k + 1) / per)
        v = target
    return np.array(out)


def factor_expression(g, dt):
    """A piecewise linear function of t through the load factors."""
    # written as a sum of ramps, each saturating after one step
    terms, prev = [], 0.0
    for k, v in enumerate(g):
        terms.append((k * dt, (v - prev) / dt))
        prev = v
    s = "value = 0.0; "
    for t0, slope in terms:
        s += "if (t > %s) { if (t < %s) { value = value + %s*(t-%s); } else { value = value + %s; } } " % (
            num(t0), num(t0 + dt), num(slope), num(t0), num(slope * dt))
    return s


def evaluate_expression(e, x, t=0.0):
    """Value of a plain arithmetic expression at the points."""
    v = eval(e, {"__builtins__": {}}, {"x": x[:, 0], "y": x[:, 1], "z": x[:, 2], "t": t, "sin": np.sin, "cos": np.cos,
                                       "exp": np.exp, "sqrt": np.sqrt})
    return np.broadcast_to(np.asarray(v, float), (len(x),))
