"""Data managers against a model: values stay with their points through steps, exchanges, copies and files."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, runner, server
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case is a sequence of operations on one data manager. It is non-trivial if it writes data and then moves it (advance, "
        "exchange with ghosts, redistribution, copy or disk).")
TECHNIQUE = ("stateful property-based testing of the data manager in process on 1 to 3 processes: generated operation sequences against a "
             "model that keeps one value per field, step and global point")
LEVEL_NOTE = ("1 to 9 fields of every relation and of lengths 1 to 9, 1 to 14 points with 0 to 4 bonds, up to 3 layouts with random owners, "
              "ghosts and local order, 1 to 25 operations; every stored value is compared exactly after every operation.")
ASSUMPTIONS = ["a data manager is given its maps and fields once, as every caller in the code does"]
BUILD = {"rel": ["verif_state"]}
QUICK = dict(examples=60000, cap_s=21)
THOROUGH = dict(examples=1000000, cap_s=1800)
SCALES = [1.0, 1e-30, 1e25, 3e-3]
STEPS = ["none", "n", "np1"]


@st.composite
def cases(draw, tier):
    p = draw(st.sampled_from([1, 1, 2, 2, 3]))
    n = draw(st.integers(1, 14))
    fields = draw(st.lists(st.tuples(st.sampled_from(["node", "element", "element", "bond", "global"]), st.integers(1, 9),
                                     st.sampled_from(["two", "two", "constant"])), min_size=1, max_size=9))
    op = st.one_of(st.tuples(st.just("write"), st.integers(0, 99), st.integers(0, 2), st.integers(0, 999)),
                   st.tuples(st.just("write"), st.integers(0, 99), st.integers(0, 2), st.integers(0, 999)),
                   st.tuples(st.just("update")), st.tuples(st.just("scatter")),
                   st.tuples(st.just("rebalance"), st.integers(0, 2)), st.tuples(st.just("copy"), st.integers(0, 9)),
                   st.tuples(st.sampled_from(["save", "load", "load"])), st.tuples(st.just("absent")))
    return {"np": p, "n": n, "fields": [list(f) for f in fields], "ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=25))],
            "layouts": draw(st.integers(1, 3)), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def value(gid, comp, seed, extra):
    k = (gid * 7919 + comp * 104729 + seed * 1299709 + extra * 15485863) % 1000003
    return (k / 97.0 - 5000.0) * SCALES[seed % 4]


def layouts(case):
    """Owned and ghost points of every process."""
    r = gen.rng(case["seed"], 61)
    n, p = case["n"], case["np"]
    out = []
    for _ in range(case["layouts"]):
        owner = r.integers(0, p, n)
        lay = []
        for k in range(p):
            own = r.permutation(np.flatnonzero(owner == k)).tolist()
            other = np.flatnonzero(owner != k)
            lay.append((own, r.permutation(other[r.uniform(size=len(other)) < 0.5]).tolist()))
        out.append(lay)
    return out


class Model:
    """data[rank][field][step] = {gid: [values]} in the order of the local numbering; dictionaries keep it."""

    def __init__(self, fields, bonds, lay, p):
        self.fields, self.bonds, self.p = fields, bonds, p
        self.lay = lay
        self.data = [{(f, s): self.empty(k, fields[f], lay) for f in range(len(fields)) for s in self.steps(fields[f])} for k in range(p)]
        self.disk = None

    def steps(self, field):
        return ["none"] if field["temporal"] == "constant" else ["n", "np1"]

    def size(self, field, g):
        return self.bonds[g] if field["relation"] == "bond" else field["length"]

    def points(self, k, field, lay):
        own, ghost = lay[k]
        if field["relation"] == "bond":
            return [g for g in own if self.bonds[g] > 0]
        if field["relation"] == "global":
            return [0]
        return own + ghost

    def empty(self, k, field, lay):
        return {g: [0.0] * self.size(field, g) for g in self.points(k, field, lay)}

    def write(self, f, step, seed):
        field = self.fields[f]
        for k in range(self.p):
            own = self.lay[k][0]
            for g, v in self.data[k][f, step].items():
                ghost = field["relation"] != "global" and g not in own
                for c in range(len(v)):
                    v[c] = value(g, c, seed, k + 1 if ghost else 0)

    def update(self):
        for k in range(self.p):
            for f, field in enumerate(self.fields):
                if field["temporal"] == "two":
                    d = self.data[k]
                    if field["relation"] == "global":
                        d[f, "n"] = {g: list(v) for g, v in d[f, "np1"].items()}
                    else:
                        d[f, "n"], d[f, "np1"] = d[f, "np1"], d[f, "n"]

    def owned(self, f, step):
        return {g: v for k in range(self.p) for g, v in self.data[k][f, step].items() if g in self.lay[k][0]}

    def scatter(self):
        for f, field in enumerate(self.fields):
            if field["relation"] in ("node", "element"):
                for s in self.steps(field):
                    true = self.owned(f, s)
                    for k in range(self.p):
                        for g in self.data[k][f, s]:
                            self.data[k][f, s][g] = list(true[g])

    def rebalance(self, lay):
        self.scatter()
        old = {(f, s): self.owned(f, s) for f, field in enumerate(self.fields) for s in self.steps(field)}
        for k in range(self.p):
            for f, field in enumerate(self.fields):
                if field["relation"] != "global":
                    for s in self.steps(field):
                        self.data[k][f, s] = {g: list(old[f, s][g]) for g in self.points(k, field, lay)}
        self.lay = lay

    def part(self, k, seed):
        """What a manager with a part of the points of process k holds after a copy."""
        own, ghost = self.lay[k]
        keep = [g for g in reversed(own) if (g * 7 + seed) % 3], [g for g in reversed(ghost) if (g * 7 + seed) % 3]
        out = {}
        for (f, s), d in self.data[k].items():
            if self.fields[f]["relation"] == "global":
                out[f, s] = d
            else:
                out[f, s] = {g: d[g] for g in self.points(0, self.fields[f], [keep])}
        return out

    def save(self):
        self.disk = (self.lay, [{key: {g: list(v) for g, v in d.items()} for key, d in self.data[k].items()
                                 if self.fields[key[0]]["relation"] != "global"} for k in range(self.p)])

    def load(self):
        for k in range(self.p):
            for key, d in self.disk[1][k].items():
                self.data[k][key] = {g: list(v) for g, v in d.items()}


def text_of(data):
    """The lines a dump writes."""
    lines = []
    for f, s in sorted(data, key=lambda key: (key[0], STEPS.index(key[1]))):
        lines.append("data %d %s" % (f, s) + "".join(" %d:%d" % (g, len(v)) + "".join(" %.17g" % w for w in v) for g, v in data[f, s].items()))
    return lines + ["dumped"]


def evaluate(case):
    p, n = case["np"], case["n"]
    r = gen.rng(case["seed"], 62)
    bonds = r.integers(0, 5, n).tolist()
    lays = layouts(case)
    fields = []
    for k, (relation, length, temporal) in enumerate(case["fields"]):
        if relation == "bond":
            length = 1
        if relation == "global":
            length = 1 if length % 2 else 3
        fields.append({"relation": relation, "length": length, "temporal": temporal,
                       "label": "F%d%s%d%s" % (k, relation, length, temporal)})
    point = [f for f in fields if f["relation"] != "global"]
    if not point:
        return Discard("global fields only")
    constant = any(f["temporal"] == "constant" for f in point)
    two = any(f["temporal"] == "two" for f in point)
    if any(f["relation"] == "bond" for f in fields) and not any(bonds):
        return Discard("no bonds")
    model = Model(fields, bonds, lays[0], p)
    ops, want, moved, wrote = [], [[] for _ in range(p)], False, False
    now, kinds = 0, set()

    def check():
        ops.append("dump")
        for k in range(p):
            want[k] += text_of(model.data[k])

    check()
    for op in case["ops"]:
        name = op[0]
        if name == "write":
            f = op[1] % len(fields)
            steps = model.steps(fields[f])
            s = steps[op[2] % len(steps)]
            model.write(f, s, op[3])
            ops.append("write %d %d %d" % (f, STEPS.index(s), op[3]))
            wrote = True
        elif name == "update":
            model.update()
            ops.append("update")
        elif name == "scatter":
            model.scatter()
            ops.append("scatter")
        elif name == "rebalance":
            now = op[1] % len(lays)
            model.rebalance(lays[now])
            ops.append("rebalance %d" % now)
        elif name == "copy":
            ops.append("copy %d" % op[1])
            for k in range(p):
                want[k] += text_of(model.part(k, op[1]))
        elif name == "save":
            if not two:
                continue
            model.save()
            ops.append("save")
        elif name == "load":
            if model.disk is None or model.disk[0] is not model.lay:
                continue
            model.load()
            ops.append("load")
        else:
            ops.append("absent Nowhere")
        kinds.add(name)
        moved = moved or wrote and name in ("update", "scatter", "rebalance", "copy", "load")
        check()
    text = "%d\n" % len(fields) + "".join("%(label)s %(relation)s %(length)d %(temporal)s\n" % f for f in fields)
    text += "%d %s\n%d\n" % (n, " ".join(map(str, bonds)), len(lays))
    for lay in lays:
        for own, ghost in lay:
            text += "%d %s %d %s\n" % (len(own), " ".join(map(str, own)), len(ghost), " ".join(map(str, ghost)))
    text += "%d\n%s\n" % (len(ops), "\n".join(ops))
    try:
        lines = server.ask("verif_state", "%d\n%s" % (len(text), text), np_=p)
    except runner.Broken as e:
        return Bad("operations %s: %s" % (ops, e))
    got, k = [[] for _ in range(p)], None
    for line in lines:
        if line.startswith("process "):
            k = int(line.split()[1])
        elif k is not None:
            got[k].append(line)
    for k in range(p):
        for i in range(max(len(got[k]), len(want[k]))):
            g = got[k][i] if i < len(got[k]) else "nothing"
            w = want[k][i] if i < len(want[k]) else "nothing"
            if g != w:
                done = want[k][:i].count("dumped")
                seen = 0
                for upto, o in enumerate(ops):
                    seen += o == "dump" or o.startswith("copy")
                    if seen > done:
                        break
                return Bad("process %d after %s: '%s' instead of '%s'; fields %s" % (k, [o for o in ops[:upto + 1] if o != "dump"], g[:300], w[:300],
                                                                                     [f["label"] for f in fields]))
    return Ok(case_key(case) if moved else None, ["np=%d" % p] + sorted(kinds) + ([] if constant and two else ["one kind of state"]))
