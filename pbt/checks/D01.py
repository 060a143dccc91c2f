"""No point is lost, duplicated or altered by the decomposition."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case is a point file in a random layout with random block numbers and node sets, read on 1 to 6 processes. It is "
        "non-trivial if there are at least two blocks or processes, or lines that hold no point.")
TECHNIQUE = "property-based testing of generated point files against the values written into them"
LEVEL_NOTE = ("Random clouds of up to 200 points, up to 5 blocks with any positive numbers below 2^31, comments, blank lines and "
              "number formats, node sets given in the deck or in files, 1 to 6 processes.")
ASSUMPTIONS = ["each process has at least a few points", "fields of a line are separated by blanks or tabs"]
QUICK = dict(examples=3000, cap_s=21)
THOROUGH = dict(examples=50000, cap_s=1800)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 2, 3, 4, 5, 6]))
    cloud = draw(gen.clouds(min_points=max(1, 8 * np_) if np_ > 1 else 1, max_points=draw(st.sampled_from([60, 200 if tier == "quick" else 600])), max_side=8))
    return {"np": np_, "cloud": cloud, "nblocks": min(draw(st.sampled_from([1, 2, 3, 5])), gen.cloud_size(cloud)),
            "how": draw(st.sampled_from(["random", "slabs"])),
            "ids": draw(st.sampled_from(["plain", "gaps", "reversed", "random", "big"])),
            "layout": draw(st.sampled_from(["plain", "comments", "loose"])), "seed": draw(gen.seeds),
            "sets": draw(st.lists(st.sampled_from(["list", "list", "file", "file loose", "one", "all", "empty file"]), max_size=4)),
            "factor": draw(st.sampled_from([0.5, 1.3, 2.2])), "entry": draw(st.sampled_from(["each", "joint", "default"]))}


def strategy(tier):
    return cases(tier)


def number(r, v, layout):
    """The number in one of the usual notations, exactly."""
    s = repr(float(v))
    if layout == "plain":
        return s
    k = int(r.integers(5))
    if k == 1 and not s.startswith("-"):
        return "+" + s
    if k == 2:
        return "%.17e" % v
    if k == 3:
        return "%.17E" % v
    if k == 4 and s.endswith(".0"):
        return s[:-1] if r.random() < 0.5 else s[:-2]
    return s


def mesh(r, x, blk, vol, layout):
    lines, extra = [], 0
    filler = ["# comment 1 2 3 4 5", "/ comment", "* comment", "#", "", "   ", "// 0.0 0.0 0.0 1 1.0", "  # indented"]
    for i in range(len(x)):
        if layout != "plain":
            while r.random() < 0.2:
                lines.append(filler[int(r.integers(len(filler)))])
                extra += 1
        f = [number(r, x[i, 0], layout), number(r, x[i, 1], layout), number(r, x[i, 2], layout), str(int(blk[i])), number(r, vol[i], layout)]
        if layout == "loose":
            f = "".join(a + [" ", "  ", "\t", " \t "][int(r.integers(4))] for a in f[:-1]) + f[-1]
            f = " " * int(r.integers(3)) + f + " " * int(r.integers(3))
        else:
            f = " ".join(f)
        lines.append(f)
    text = "\n".join(lines)
    if layout == "plain" or r.random() < 0.6:
        text += "\n" * int(r.integers(1, 3))
    return text, extra


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n = len(x)
    vol = gen.volumes(case["cloud"], n, h)
    nb = case["nblocks"]
    b = gen.assign_blocks(x, nb, case["how"], case["cloud"]["seed"])
    if b is None:
        return Discard("too few points for the blocks")
    r = gen.rng(case["seed"])
    ids = {"plain": np.arange(1, nb + 1), "gaps": 2 + 5 * np.arange(nb), "reversed": np.arange(nb, 0, -1),
           "random": np.sort(r.choice(np.arange(1, 5000), nb, replace=False))[r.permutation(nb)],
           "big": np.array([1000000, 2147483646, 12345678, 999999, 7])[:nb]}[case["ids"]]
    text, extra = mesh(r, x, ids[b], vol, case["layout"])
    hor = float(case["factor"] * h)
    if np.any(np.abs(gen.dist(x) - hor) < 1e-9 * hor):
        return Discard("a distance ties with the horizon")
    if case["entry"] == "each":
        blocks = {"e%d" % k: {"Block Names": "block_%d" % ids[k], "Material": "m", "Horizon": hor} for k in range(nb)}
    else:
        blocks = {"e": {"Block Names": " ".join("block_%d" % i for i in ids) if case["entry"] == "joint" else "default",
                        "Material": "m", "Horizon": hor}}
    bc, files, sets = {}, {}, {}
    for k, kind in enumerate(case["sets"]):
        m = {"one": 1, "all": n, "empty file": 0}.get(kind, int(r.integers(1, n + 1)))
        pts = r.permutation(n)[:m]
        name = ["Node Set %d", "node set %d", "My Node Set %d", "Node_Set_%d"][int(r.integers(4))] % k
        if kind.startswith(("file", "empty")):
            fn = "nodes%d.txt" % k
            rows, i = [], 0
            while i < m:
                if kind == "file loose" and r.random() < 0.2:
                    rows.append(["# nodes 1 2", "", "/ 3", "* 4"][int(r.integers(4))])
                    continue
                w = int(r.integers(1, 6))
                rows.append(("  " if kind == "file loose" else " ").join(str(int(p) + 1) for p in pts[i:i + w]))
                i += w
            files[fn] = "\n".join(rows) + ("\n" if r.random() < 0.7 or not rows else "")
            bc[name] = fn
        else:
            bc[name] = gen.node_list(pts)
        key = name.upper().replace(" ", "_")
        sets[key] = np.sort(pts) + 1
        # every set carries its own displacement so that its members can be told in the result
        if m:
            bc["ic %d" % k] = {"Type": "Initial Velocity", "Node Set": name, "Coordinate": "xyz"[k % 3], "Value": "%d.0" % (k + 1)}
    p, f = gen.text_deck(x, vol, ids[b], blocks, {"m": dict(gen.ELASTIC)}, ["Volume", "Element_Id", "Model_Coordinates", "Velocity", "Number_Of_Neighbors"],
                         bc=bc, files=files, mesh_text=text)
    np_ = case["np"]
    with runner.WorkDir() as wd:
        o = runner.simulate(p, f, np_, points=n, directory=wd)
        parts = o.parts
    if not np.array_equal(o.coords, x) or not np.array_equal(exo.vec(o, "Model_Coordinates", 0), x):
        w = int(np.argmax(np.abs(o.coords - x).max(1) + np.abs(exo.vec(o, "Model_Coordinates", 0) - x).max(1)))
        return Bad("point %d is at %s, its line says %s" % (w + 1, o.coords[w].tolist(), x[w].tolist()))
    V = o.elem["Volume"][0]
    if not np.array_equal(V, vol):
        w = int(np.argmax(np.abs(V - vol)))
        return Bad("point %d has volume %r, its line says %r" % (w + 1, float(V[w]), float(vol[w])))
    if not np.array_equal(o.elem["Element_Id"][0], np.arange(1, n + 1)):
        return Bad("Element_Id is %s" % o.elem["Element_Id"][0].tolist())
    if not np.array_equal(o.elem_nodes, o.elem_ids):
        return Bad("elements %s sit on nodes %s" % (o.elem_ids.tolist(), o.elem_nodes.tolist()))
    if not np.array_equal(o.blocks, ids[b]):
        w = int(np.argmax(o.blocks != ids[b]))
        return Bad("point %d is in block %d, its line says %d" % (w + 1, o.blocks[w], ids[b][w]))
    # node sets as written to the file
    for key, want in sets.items():
        got = []
        for pt in parts:
            if key not in pt.ns_names:
                return Bad("node set %s is missing in an output file, which has %s" % (key, pt.ns_names))
            got += pt.node_sets[pt.ns_names.index(key)].tolist()
        if not np.array_equal(np.sort(got), want):
            return Bad("node set %s holds points %s instead of %s" % (key, sorted(got), want.tolist()))
    # and as used: the last one that names a degree of freedom wins
    v = np.zeros((n, 3))
    for k, want in enumerate(sets.values()):
        v[want - 1, k % 3] = k + 1.0
    got = exo.vec(o, "Velocity", 0)
    clash = len(case["sets"]) > 3
    bad = np.argwhere(got != v)
    if len(bad) and not (clash and bad[0][1] == 0):
        i, k = bad[0]
        return Bad("point %d has initial velocity %s in direction %s, expected %s" % (i + 1, got[i, k], "xyz"[k], v[i, k]))
    cnt = (gen.dist(x) <= hor).sum(1) - 1
    if not np.array_equal(o.elem["Number_Of_Neighbors"][0], cnt):
        return Bad("numbers of neighbours %s instead of %s" % (o.elem["Number_Of_Neighbors"][0].tolist(), cnt.tolist()))
    tags = ["np=%d" % np_, "ids " + case["ids"], "layout " + case["layout"], "cloud " + case["cloud"]["kind"], "entry " + case["entry"]] + ["set " + s for s in case["sets"]]
    return Ok(case_key(case) if nb > 1 or np_ > 1 or extra else None, tags)
