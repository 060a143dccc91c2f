"""Spatial search structures against direct enumeration."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, server
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case builds every search structure over one random point set and asks for the points in several balls and cubes and for "
        "the nearest points. It is non-trivial if some ball holds some but not all of the points.")
TECHNIQUE = "property-based testing of the search structures in process, against brute-force enumeration with numpy"
LEVEL_NOTE = ("Random sets of 1 to 300 distinct points (uniform, lattices, lines, planes, clusters over 8 orders of magnitude, few "
              "distinct coordinates), 20 queries each at, near and far from the points.")
ASSUMPTIONS = ["points within 1e-9 (relative) of the surface of a query ball or cube may or may not be reported",
               "points of a set are further apart than 1e-9 of the size of the set"]
BUILD = {"rel": ["verif_search"]}
QUICK = dict(examples=100000, cap_s=20)
THOROUGH = dict(examples=2000000, cap_s=1800)
KINDS = ["uniform", "lattice", "lattice", "line", "plane", "clusters", "few", "geometric", "axis", "slanted"]


@st.composite
def cases(draw, tier):
    return {"kind": draw(st.sampled_from(KINDS)), "n": draw(st.integers(1, 300 if tier == "thorough" else 150)),
            "scale": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e4])), "offset": draw(st.sampled_from([0.0, 0.0, -0.5, 1e3])),
            "queries": draw(st.integers(1, 20)), "shuffle": draw(st.booleans()), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def layout(case):
    r = gen.rng(case["seed"], 5)
    n, kind = case["n"], case["kind"]
    if kind == "uniform":
        x = r.uniform(0, 1, (n, 3))
    elif kind == "lattice":
        side = max(1, int(round(n ** (1 / 3))))
        d = [side, side, max(1, n // side ** 2)]
        x = np.stack(np.meshgrid(*[np.arange(k) for k in d], indexing="ij"), -1).reshape(-1, 3) * r.choice([0.1, 1.0, 1 / 3])
    elif kind == "line":
        x = np.outer(r.uniform(0, 1, n), r.normal(size=3))
    elif kind == "axis":
        x = np.zeros((n, 3))
        x[:, r.integers(0, 3)] = r.permutation(n) * 0.1
    elif kind == "plane":
        x = r.uniform(0, 1, (n, 3))
        x[:, r.integers(0, 3)] = r.uniform()
    elif kind == "slanted":
        side = max(1, int(n ** 0.5))
        g = np.stack(np.meshgrid(np.arange(side), np.arange(side), indexing="ij"), -1).reshape(-1, 2)
        x = g @ np.linalg.qr(r.normal(size=(3, 3)))[0][:2]
    elif kind == "clusters":
        c = r.uniform(0, 1, (max(1, n // 10), 3))
        x = c[r.integers(0, len(c), n)] + r.uniform(-1, 1, (n, 3)) * 10.0 ** r.uniform(-7, -1, (n, 1))
    elif kind == "few":
        x = r.integers(0, 4, (n, 3)).astype(float)
    else:
        x = r.choice([-1, 1], (n, 3)) * 10.0 ** r.uniform(-7, 0, (n, 3))
    x = (x + case["offset"]) * case["scale"]
    keep, size = [], np.abs(x).max() + 1e-300
    for i in range(len(x)):
        if not keep or np.abs(x[keep] - x[i]).max(1).min() > 1e-9 * size:
            keep.append(i)
    x = x[keep]
    return x[r.permutation(len(x))] if case["shuffle"] else x


def evaluate(case):
    x = layout(case)
    n = len(x)
    r = gen.rng(case["seed"], 6)
    q = []
    extent = max(np.ptp(x, axis=0).max(), 1e-3 * case["scale"])
    for _ in range(case["queries"]):
        how = r.integers(0, 5)
        if how < 2:
            c = x[r.integers(0, n)].copy()
        elif how == 2:
            c = 0.5 * (x[r.integers(0, n)] + x[r.integers(0, n)])
        elif how == 3:
            c = x[r.integers(0, n)] + extent * r.normal(size=3) * 0.3
        else:
            c = x.mean(0) + extent * r.normal(size=3) * 10
        d = np.linalg.norm(x - c, axis=1)
        rad = float(d[r.integers(0, n)] * r.choice([0.7, 0.99, 1.01, 1.5, 1.8]))
        if r.integers(0, 8) == 0 or rad <= 1e-8 * extent:
            rad = extent * float(r.choice([1e-5, 0.3, 5.0]))
        q.append((c, rad))
    text = "%d %d\n" % (n, len(q))
    text += "\n".join("%r %r %r" % tuple(map(float, p)) for p in x) + "\n"
    text += "\n".join("%r %r %r %r" % (*map(float, c), float(rad)) for c, rad in q) + "\n"
    lines = server.ask("verif_search", text)
    if len(lines) != 4 * len(q):
        return Bad("%d lines of answer for %d queries" % (len(lines), len(q)))
    partial = False
    for k, (c, rad) in enumerate(q):
        d = np.linalg.norm(x - c, axis=1)
        box = np.abs(x - c).max(1)
        tol = 1e-9 * (rad + np.abs(c).max() * 1e-3)
        for name, line, m in (("kd-tree ball", lines[4 * k], d), ("Zoltan ball", lines[4 * k + 1], d), ("kd-tree cube", lines[4 * k + 2], box)):
            ids = [int(v) for v in line.split()][1:]
            got = set(ids)
            if len(got) != len(ids) or any(i < 0 or i >= n for i in ids):
                return Bad("%s of query %d returns a point twice or one that does not exist: %s" % (name, k, ids))
            sure = set(np.flatnonzero(m <= rad - tol).tolist())
            maybe = set(np.flatnonzero(m <= rad + tol).tolist())
            if not sure <= got or not got <= maybe:
                return Bad("%s around %r with radius %r over %d points: missing %s, not within it %s" % (
                    name, c.tolist(), rad, n, sorted(sure - got)[:5], sorted(got - maybe)[:5]))
        near = int(lines[4 * k + 3])
        if not (0 <= near < n and d[near] <= d.min() + tol):
            return Bad("the point nearest to %r is reported as %d, %d is nearer" % (c.tolist(), near, int(d.argmin())))
        inside = int((d <= rad).sum())
        partial |= 0 < inside < n
    return Ok(case_key(case) if partial else None, ["layout " + case["kind"]])
