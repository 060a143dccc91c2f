"""Bonds are exactly the points inside the horizon."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from .. import exo, gen, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case is a random cloud with 1-3 blocks, horizons and a process count. It is non-trivial if at least one "
        "point has a neighbour and at least one pair is not bonded.")
TECHNIQUE = "property-based testing of generated decks against direct enumeration of pairs"
LEVEL_NOTE = ("Explores random clouds, horizons, blocks and 1-4 processes; the bond set is observed through its size, "
              "the sum of random volumes and the list of bonds for visualization. Trusts the Exodus reader and numpy.")
ASSUMPTIONS = ["pairs whose distance is within 1e-9 (relative) of the horizon are not generated, except for points on whole "
               "numbers, where the distance is exact",
               "each process has at least a few points"]
QUICK = dict(examples=2400, cap_s=20)
THOROUGH = dict(examples=40000, cap_s=2400)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    big = tier != "quick"
    horizon = draw(st.sampled_from(["same", "per block", "linear", "branch", "default"]))
    factor = draw(st.sampled_from([1.05, 0.6, 1.6, 2.3, 3.1, 5.0]))
    variable = horizon in ("linear", "branch")
    if variable:
        factor = max(factor, 1.6)
    cloud = draw(gen.clouds(min_points=max(2, 8 * np_) if np_ > 1 else 2,
                            max_points=draw(st.sampled_from([40, 120] + ([400] if big else []))), max_side=8,
                            min_side=3 if variable else 1,
                            **({"kinds": ("lattice", "lattice", "random")} if variable else {})))
    nb = draw(st.sampled_from([1, 1, 2, 3]))
    nb = min(nb, gen.cloud_size(cloud))
    # whole numbers: distances are computed exactly, so that ties with the horizon are meaningful
    whole = not variable and draw(st.integers(0, 5)) == 0
    return {"np": np_, "cloud": cloud, "nblocks": nb, "whole": draw(st.sampled_from([0.125, 1.0, 64.0])) if whole else None,
            "steps": draw(st.sampled_from([1, 2, 3, 5])),
            "ids": draw(st.sampled_from(["plain", "plain", "gaps", "reverse", "big"])),
            "how": draw(st.sampled_from(["random", "slabs"])),
            "horizon": horizon, "factor": factor,
            "ratio": draw(st.sampled_from([1.3, 1.9, 2.7])),
            "omit": draw(st.sampled_from([None, None, "None", "All"])),
            "list": draw(st.sampled_from([None, "all", "all", "one"]))}


def strategy(tier):
    return cases(tier)


def block_numbers(kind, n):
    return {"plain": [1, 2, 3], "gaps": [2, 7, 4], "reverse": [3, 2, 1], "big": [1000, 12, 70001]}[kind][:n]


def bonds(wd, np_, x, h):
    """The bonds in the visualization files, or None if their six digits do not tell the points apart."""
    tol = 1.1e-5 * np.abs(x).max()
    d = gen.dist(x)
    np.fill_diagonal(d, np.inf)
    if d.min() < 4 * tol:
        return None
    n = len(x)
    count = np.zeros((n, n), int)
    tree = cKDTree(x)
    for p in range(np_):
        with open("%s/bonds_Proc%d.vtk" % (wd, p)) as f:
            t = f.read().split("\n")
        k = next(i for i, l in enumerate(t) if l.startswith("POINTS"))
        m = int(t[k].split()[1])
        pts = np.array([[float(v) for v in l.split()] for l in t[k + 1:k + 1 + m]]).reshape(m, 3)
        at = tree.query(pts)[1] if m else np.zeros(0, int)
        if m and np.abs(x[at] - pts).max() > tol:
            raise runner.Broken("a listed point is not a point of the mesh")
        k += 1 + m
        for l in t[k + 1:k + 1 + int(t[k].split()[1])]:
            _, a, b = l.split()
            count[at[int(a)], at[int(b)]] += 1
    return count


def evaluate(case):
    x, h = gen.points(case["cloud"])
    if case.get("whole"):
        rr = gen.rng(case["cloud"]["seed"], 5)
        side = rr.integers(2, 9, 3)
        x = np.stack(np.meshgrid(*[np.arange(k) for k in side], indexing="ij"), -1).reshape(-1, 3)
        x = (x[rr.permutation(len(x))[:max(len(x) // 3, 2, 8 * case["np"])]] - rr.integers(0, 20, 3)) * case["whole"]
        h = case["whole"]
        if len(x) < 8 * case["np"]:
            return Discard("too few points")
    n = len(x)
    vol = gen.volumes(case["cloud"], n, h)
    b = gen.assign_blocks(x, case["nblocks"], case["how"], case["cloud"]["seed"])
    if b is None:
        return Discard("too few points for the blocks")
    ids = np.array(block_numbers(case["ids"], case["nblocks"]))
    base = case["factor"] * h if not case.get("whole") else float(case["steps"]) * h
    nb = case["nblocks"]
    kind = case["horizon"]
    hor = np.full(n, base)
    blocks = {}
    if kind == "same" or (kind == "default" and nb == 1):
        blocks["all"] = {"Block Names": " ".join("block_%d" % i for i in ids), "Material": "m", "Horizon": base}
    elif kind in ("per block", "default"):
        for k in range(nb):
            hk = base * case["ratio"] ** (k if k < 2 else -1) if not case.get("whole") else base + (0, 1, 2)[k] * h
            hor[b == k] = hk
            name = "block_%d" % ids[k] if not (kind == "default" and k == 1) else "default"
            blocks["g%d" % k] = {"Block Names": name, "Material": "m", "Horizon": float(hk)}
    else:
        lo, hi = x[:, 0].min(), x[:, 0].max()
        span = hi - lo
        if kind == "linear":
            slope = base * (case["ratio"] - 1) / span if span > 0 else 0.0
            expr = "%r + %r*(x - %r)" % (float(base), float(slope), float(lo))
            hor = base + slope * (x[:, 0] - lo)
        else:
            y0 = float(np.median(x[:, 1]))
            z1 = float(base * 0.1)
            zz = float(x[:, 2].max()) if x[:, 2].max() != 0 else 1.0
            expr = ("if (y > %r) { value = %r; } else { value = %r + %r*z/(%r); }"
                    % (y0, float(base * case["ratio"]), float(base), z1, zz))
            hor = np.where(x[:, 1] > y0, base * case["ratio"], base + z1 * x[:, 2] / zz)
            if np.any(np.abs(x[:, 1] - y0) < 1e-9 * h) and np.any(x[:, 1] != y0):
                # the comparison itself is exact, only a tie in rounding matters
                hor = np.where(x[:, 1] > y0, base * case["ratio"], base + z1 * x[:, 2] / zz)
        if np.any(hor <= 0):
            return Discard("horizon not positive")
        blocks["all"] = {"Block Names": " ".join("block_%d" % i for i in ids), "Material": "m", "Horizon": expr}
    d = gen.dist(x)
    ties = np.abs(d - hor[:, None]) < 1e-9 * hor[:, None]
    if ties.any() and not case.get("whole"):
        return Discard("a distance ties with the horizon")
    A = d <= hor[:, None]
    np.fill_diagonal(A, False)
    if case["omit"] == "All":
        A &= b[:, None] == b[None, :]
    disc = {"Omit Bonds Between Blocks": case["omit"]} if case["omit"] else None
    mat = dict(gen.ELASTIC)
    if kind in ("linear", "branch"):
        # only this family of materials accepts a horizon that varies inside a block
        if gen.degenerate(x, vol, A):
            return Discard("degenerate neighbourhood")
        mat.update({"Material Model": "Elastic Correspondence", "Hourglass Coefficient": 0.02})
    extra, which = None, None
    if case["list"]:
        extra = {"Compute Class Parameters": {"Bonds": {"Compute Class": "Bond_Visualization", "File Name": "bonds"}}}
        if case["list"] == "one":
            which = case["cloud"]["seed"] % n
            extra["Compute Class Parameters"]["Bonds"]["Node Id"] = which + 1
    p, files = gen.text_deck(x, vol, ids[b], blocks, {"m": mat}, ["Number_Of_Neighbors", "Neighborhood_Volume"],
                             disc=disc, extra=extra)
    with runner.WorkDir() as wd:
        r = runner.peridigm(p, files, case["np"], directory=wd)
        if r.code != 0 or r.timeout:
            return Bad("valid input ended with status %s\n%s" % (r.code, r.out[-1500:]))
        o = exo.read(wd, "out", case["np"])
        listed = bonds(wd, case["np"], x, h) if case["list"] else None
    if len(o.elem_ids) != n or not np.array_equal(o.elem_ids, np.arange(1, n + 1)):
        return Bad("output does not hold every point once")
    cnt = o.elem["Number_Of_Neighbors"][0]
    nv = o.elem["Neighborhood_Volume"][0]
    want = A.sum(1)
    wv = vol + A @ vol
    bad = np.where((cnt != want) | (np.abs(nv - wv) > 1e-11 * wv))[0]
    if len(bad):
        i = int(bad[0])
        return Bad("point %d (%s) has %g bonds and neighbourhood volume %r; within its horizon %r there are %d points "
                   "with volume %r" % (i + 1, x[i].tolist(), cnt[i], nv[i], hor[i], want[i], wv[i]))
    if listed is not None:
        w = A if which is None else A & (np.arange(n) == which)[:, None]
        bad = np.argwhere(listed != w)
        if len(bad):
            i, j = bad[0]
            return Bad("the bond of point %d to point %d is listed %d times instead of %d times" % (i + 1, j + 1, listed[i, j], w[i, j]))
    off = A.size - n - A.sum()
    key = case_key(case) if A.any() and off > 0 else None
    return Ok(key, ["np=%d" % case["np"], "horizon " + kind, "cloud " + case["cloud"]["kind"]] + (["bonds listed"] if listed is not None else []) +
              (["exact ties"] if ties.any() else []))
