"""Output files hold exactly the requested data at the requested steps."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case runs one simulation with up to four output requests and compares every file with the full record of the same "
        "simulation: steps, times, variable names, values, and the point and block a value belongs to. It is non-trivial if "
        "there are at least two requests that differ, or a step range or spacing that leaves out steps.")
TECHNIQUE = ("differential property-based testing: outputs requested in generated ways against the full record of the same "
             "simulation, plus identities of fields that are known from the input")
LEVEL_NOTE = ("Random bodies of up to 64 points in up to 4 blocks, with different materials per block, up to 12 steps and two "
              "consecutive solvers, up to 4 outputs with own names, spacing, ranges and variables, 1 to 4 processes.")
ASSUMPTIONS = ["the output just before the first requested step may be there or not: the range is counted from one, the initial state is output number one",
               "values of two runs of the same input agree to 1e-12 of the largest value"]
QUICK = dict(examples=2400, cap_s=21)
THOROUGH = dict(examples=50000, cap_s=1800)

NODAL = {"Displacement": 3, "Velocity": 3, "Force_Density": 3, "Coordinates": 3, "Model_Coordinates": 3, "Force": 3, "Acceleration": 3, "Linear_Momentum": 3}
ELEM = {"Volume": 1, "Element_Id": 1, "Proc_Num": 1, "Kinetic_Energy": 1, "Radius": 1,
        "Number_Of_Neighbors": 1, "Dilatation": 1, "Weighted_Volume": 1, "Damage": 1, "Lambda": 1, "Cauchy_Stress": 9}
GLOB = {"Global_Kinetic_Energy": 1, "Global_Linear_Momentum": 1, "Global_Angular_Momentum": 1}
# element fields that only some laws provide
OWN = {"Dilatation": ("elastic", "plastic", "visco", "hardening"), "Weighted_Volume": ("elastic", "plastic", "visco", "hardening"),
       "Lambda": ("plastic", "hardening"), "Cauchy_Stress": ("corr elastic",)}
TENSOR = ["XX", "XY", "XZ", "YX", "YY", "YZ", "ZX", "ZY", "ZZ"]


@st.composite
def requests(draw):
    return {"name": draw(st.sampled_from(["a", "b", "res.1", "my result", "sub_x", "C.d e"])),
            "freq": draw(st.sampled_from([1, 1, 2, 3, 4, 7])),
            "first": draw(st.sampled_from([None, None, 1, 2, 3, 5, 8])),
            "last": draw(st.sampled_from([None, None, 0, 1, 3, 4, 6, 20])),
            "kind": draw(st.sampled_from(["mixed", "mixed", "mixed", "global", "nodal", "elem"])),
            "seed": draw(gen.seeds), "title": draw(st.sampled_from(["Output", "My Output", "Output Set"]))}


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 2, 3, 4]))
    s = draw(scen.scenarios(laws=("elastic", "plastic", "bond", "corr elastic"), np_max=np_, nblocks=(1, 2, 3, 4), max_steps=12,
                            mixed=(False, True), scales=(1.0,), offsets=(0.0, 1.0), amps=(1e-3, 1e-2),
                            loads=("velocity", "pull", "body", "displaced")))
    return {"np": np_, "scenario": s, "requests": draw(st.lists(requests(), min_size=1, max_size=4)),
            "second": draw(st.sampled_from([0, 0, 0, 1, 3])), "ids": draw(st.sampled_from(["plain", "plain", "gaps", "reversed"])),
            "sets": draw(st.booleans()), "dynamic": draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def components(name, n):
    return [name] if n == 1 else [name + c for c in ("XYZ" if n == 3 else TENSOR)]


def fields(s, ids):
    """Fields every run of the scenario provides, and the blocks that provide them."""
    out = {"nodal": dict(NODAL), "elem": {}, "glob": dict(GLOB)}
    where = {}
    for f, n in ELEM.items():
        if f in OWN:
            have = [ids[k] for k in range(s.nb) if s.laws[k] in OWN[f]]
        elif f == "Damage":
            have = list(ids) if s.damage else []
        else:
            have = list(ids)
        if have:
            out["elem"][f] = n
            where[f] = have
    return out, where


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    np_ = case["np"]
    ids = list(range(1, s.nb + 1))
    if case["ids"] == "gaps":
        ids = [3 + 4 * k for k in range(s.nb)]
    elif case["ids"] == "reversed":
        ids = ids[::-1]
    N, dt = s.steps, s.dt
    have, where = fields(s, ids)
    warm = None
    if all(l in ("elastic", "corr elastic") for l in s.laws):
        # a nodal value that tells the points apart
        warm = 300.0 + 7.0 * s.x[:, 0] + 3.0 * s.x[:, 1] + s.x[:, 2]
        s.loads = list(s.loads) + [("Initial Temperature", np.arange(s.n), None, "300.0 + 7.0*x + 3.0*y + z")]
        have["nodal"].update({"Temperature": 1, "Temperature_Change": 1})
    every = list(have["nodal"]) + list(have["elem"]) + list(have["glob"])
    solver = {"Verbose": False, "Initial Time": 0.0, "Final Time": float((N + 0.5) * dt), "Verlet": {"Fixed dt": float(dt)}}
    steps = list(range(N + 1))
    extra = {}
    if case["second"]:
        M = case["second"]
        extra["Solver 2"] = {"Verbose": False, "Initial Time": float(N * dt), "Final Time": float((N + M + 0.4) * dt), "Verlet": {"Fixed dt": float(dt)}}
        steps += list(range(N, N + M + 1))
    p0, f0 = scen.render(s, block_ids=ids, outputs=every, solver=solver, extra=extra)
    if warm is not None:
        for m in p0["Materials"].values():
            m["Thermal Expansion Coefficient"] = 1e-6
    ref = runner.simulate(p0, f0, np_, points=s.n)
    tags = scen.tags(s) + ["np=%d" % np_, "outputs %d" % len(case["requests"])]
    times = np.array(steps) * dt
    if ref.nt != len(steps) or not np.allclose(ref.times, times, rtol=1e-10, atol=1e-12 * dt):
        return Bad("full record: times %s, expected %s" % (ref.times.tolist(), times.tolist()))
    bad = placed(s, ref, ids, have, where, warm)
    if bad:
        return Bad("full record: " + bad)
    # the requests
    p, f = scen.render(s, block_ids=ids, outputs=every, solver=solver, extra=extra)
    del p["Output"]
    p["Materials"] = p0["Materials"]
    reqs = []
    used = set()
    for q, rq in enumerate(case["requests"]):
        r = gen.rng(rq["seed"])
        pick = lambda names, lo: [names[i] for i in np.sort(r.permutation(len(names))[:int(r.integers(lo, len(names) + 1))])]
        kinds = {"nodal": pick(list(have["nodal"]), 1), "elem": pick(list(have["elem"]), 1), "glob": pick(list(have["glob"]), 1)}
        if rq["kind"] == "mixed":
            if r.random() < 0.3:
                kinds["glob"] = []
        else:
            keep = {"global": "glob"}.get(rq["kind"], rq["kind"])
            kinds = {k: (v if k == keep else []) for k, v in kinds.items()}
        name = rq["name"]
        if name.replace(".", "_").replace(" ", "_") in used:
            name = "%s %d" % (name, q)
        real = name.replace(".", "_").replace(" ", "_")
        used.add(real)
        title = rq["title"] + ("" if rq["title"] not in p else " %d" % q)
        names = kinds["nodal"] + kinds["elem"] + kinds["glob"]
        names = [names[i] for i in r.permutation(len(names))]
        e = {"Output File Type": "ExodusII", "Output Filename": name, "Output Frequency": rq["freq"],
             "Output Variables": {v: True for v in names}}
        if rq["first"] is not None:
            e["Initial Output Step"] = rq["first"]
        if rq["last"] is not None:
            e["Final Output Step"] = rq["last"]
        p[title] = e
        reqs.append((rq, real, kinds))
    with runner.WorkDir() as wd:
        run = runner.peridigm(p, f, np_, directory=wd)
        if run.timeout or run.code != 0:
            return Bad("a valid input ended with status %s\n%s" % (run.code, run.out[-1200:]))
        made = sorted(n for n in os.listdir(wd) if n not in ("mesh.txt", "deck.xml"))
        seen = []
        for rq, real, kinds in reqs:
            what = "output %s (every %d, first %s, last %s)" % (real, rq["freq"], rq["first"], rq["last"])
            first = 1 if rq["first"] is None else rq["first"]
            # count of the write: the initial state is number 1
            last = 10 ** 9 if rq["last"] is None else rq["last"]
            rows = [c for c in range(len(steps)) if c % rq["freq"] == 0]
            sure = [c for c in rows if first <= c <= last or (c == 0 and first <= 1 and last >= 1)]
            maybe = [c for c in rows if first - 1 <= c <= last and c not in sure]
            tags.append("kind " + rq["kind"])
            if not kinds["nodal"] and not kinds["elem"]:
                files = [real + ".h"]
            else:
                files = [real + ".e"] if np_ == 1 else [os.path.basename(x) for x in exo.files(wd, real, np_)]
                if np_ > 1 and len(files) not in (0, np_):
                    return Bad("%s: %d files for %d processes" % (what, len(files), np_))
            exist = [x for x in files if x in made]
            seen += exist
            if sure and not exist:
                return Bad("%s: no file among %s" % (what, made))
            if not exist:
                continue
            try:
                parts = [exo.Part(os.path.join(wd, x)) for x in exist]
            except Exception as e:
                return Bad("%s: the file cannot be read: %r" % (what, e))
            got = parts[0].times
            bad = None
            for option in (sure, sorted(sure + maybe)):
                if len(got) == len(option) and np.allclose(got, times[option], rtol=1e-12, atol=0):
                    rows = option
                    break
            else:
                return Bad("%s: times %s, expected %s of steps %s" % (what, got.tolist(), times[sure].tolist(), sure))
            bad = names_match(parts[0], kinds, have)
            if bad:
                return Bad("%s: %s" % (what, bad))
            if not kinds["nodal"] and not kinds["elem"]:
                g = parts[0].glob
            else:
                o = exo.read(wd, real, np_)
                if not o.same_times:
                    return Bad("%s: the files of the processes hold different times" % what)
                if not np.array_equal(o.ids, ref.ids) or not np.array_equal(o.elem_ids, ref.elem_ids) or not np.array_equal(o.elem_nodes, ref.elem_nodes) or not np.array_equal(o.blocks, ref.blocks):
                    return Bad("%s: points or blocks differ from the full record" % what)
                if not np.array_equal(o.coords, ref.coords):
                    return Bad("%s: coordinates differ from the full record" % what)
                for kind in ("nodal", "elem"):
                    for v, a in getattr(o, kind).items():
                        b = getattr(ref, kind)[v][rows]
                        msg = differ(v, a, b)
                        if msg:
                            return Bad("%s: %s" % (what, msg))
                g = o.glob
                for pt in parts[1:]:
                    for v in g:
                        msg = differ(v, pt.glob[v], g[v])
                        if msg:
                            return Bad("%s: processes disagree: %s" % (what, msg))
            for v, a in g.items():
                msg = differ(v, a, ref.glob[v][rows])
                if msg:
                    return Bad("%s: %s" % (what, msg))
        stray = [x for x in made if x not in seen]
        if stray:
            return Bad("files %s belong to no request" % stray)
    interesting = len(case["requests"]) > 1 or len(rows) < len(steps)
    return Ok(case_key(case) if interesting else None, tags)


def differ(v, a, b):
    if a.shape != b.shape:
        return "%s has shape %s instead of %s" % (v, a.shape, b.shape)
    if a.size == 0:
        return None
    scale = np.nanmax(np.abs(b), initial=0) if np.isfinite(b).any() else 0.0
    bad = ~((np.abs(a - b) <= 1e-12 * scale) | (np.isnan(a) & np.isnan(b)))
    if not bad.any():
        return None
    w = tuple(np.argwhere(bad)[0])
    return "%s at output %d%s is %r, in the full record %r" % (v, w[0], "" if len(w) == 1 else ", point %d" % (w[1] + 1), float(a[w]), float(b[w]))


def names_match(part, kinds, have):
    for kind, got in (("nodal", part.nodal_names), ("elem", part.elem_names), ("glob", part.glob_names)):
        want = [c for v in kinds[kind] for c in components(v, have[kind][v])]
        if sorted(got) != sorted(want):
            return "%s variables %s, requested were %s" % ({"nodal": "nodal", "elem": "element", "glob": "global"}[kind], sorted(got), sorted(want))
    return None


def placed(s, o, ids, have, where, warm):
    """Fields that are known from the input sit on their points."""
    t = o.nt - 1
    blk = np.array(ids)[s.blk]
    if not np.array_equal(o.blocks, blk):
        return "points are in blocks %s, expected %s" % (o.blocks.tolist(), blk.tolist())
    if not np.array_equal(o.elem_nodes, o.elem_ids):
        return "elements are not attached to the node of the same number"
    if not np.allclose(o.coords, s.x, rtol=1e-14, atol=0):
        return "coordinates of the file differ from the input"
    for k in range(o.nt):
        if not np.array_equal(o.elem["Element_Id"][k], np.arange(1, s.n + 1)):
            return "Element_Id at output %d: %s" % (k, o.elem["Element_Id"][k].tolist())
        if not np.allclose(o.elem["Volume"][k], s.vol, rtol=1e-13):
            return "Volume at output %d" % k
        if not np.array_equal(o.elem["Proc_Num"][k], o.proc):
            return "Proc_Num at output %d: %s, the files belong to %s" % (k, o.elem["Proc_Num"][k].tolist(), o.proc.tolist())
        X = exo.vec(o, "Model_Coordinates", k)
        if not np.allclose(X, s.x, rtol=1e-14, atol=0):
            return "Model_Coordinates at output %d" % k
        y = exo.vec(o, "Coordinates", k)
        if not np.allclose(y, s.x + exo.vec(o, "Displacement", k), rtol=1e-12, atol=1e-12 * s.h):
            return "Coordinates at output %d are not reference position plus displacement" % k
        if warm is not None and not np.allclose(o.nodal["Temperature"][k], warm, rtol=1e-12):
            return "Temperature at output %d: %s, given is %s" % (k, o.nodal["Temperature"][k].tolist(), warm.tolist())
    for f, blocks in where.items():
        for c in components(f, have["elem"][f]):
            a = o.elem[c]
            there = np.isin(blk, blocks)
            if not np.isfinite(a[:, there]).all():
                return "%s is missing in a block whose material provides it" % c
            if np.isfinite(a[:, ~there]).any():
                # written although the block does not have it: only harmless if it is zero
                if np.nanmax(np.abs(a[:, ~there])) != 0:
                    return "%s has values in a block whose material does not provide it" % c
    for kind in ("nodal", "elem", "glob"):
        want = sorted(c for v, n in have[kind].items() for c in components(v, n))
        if sorted(getattr(o, kind)) != want:
            return "%s variables %s, requested were %s" % (kind, sorted(getattr(o, kind)), want)
    return None
