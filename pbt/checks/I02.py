"""Invalid inputs are refused."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from .. import deck, gen, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case runs one random valid input and one single mutation of it that makes it invalid. It is non-trivial if the valid input "
        "succeeds, so that the refusal is due to the mutation.")
TECHNIQUE = ("fault-injection property-based testing: one generated valid input, one mutation out of the listed classes; the exit status "
             "is the oracle, the unmutated input is the control")
LEVEL_NOTE = ("Random bodies of up to 64 points, 1 to 3 blocks, all material families, damage, contact, derived quantities, XML and YAML "
              "input, 1 or 2 processes; mutations: missing, unknown, contradictory and malformed entries, damaged files, loads that are "
              "not numbers.")
ASSUMPTIONS = ["an abort with a message counts as a refusal; a segmentation fault or arithmetic trap does not",
               "a run that has not ended after 60 s hangs (runs take less than 1 s)"]
QUICK = dict(examples=3000, cap_s=21, workers=20)
THOROUGH = dict(examples=40000, cap_s=1800, workers=20)

GROUPS = ["missing", "missing", "unknown", "unknown", "contradiction", "mesh", "sets", "loads", "file", "contact", "derived", "type"]
OPTIONAL = {"Dilatation Influence Function", "Deviatoric Influence Function", "Thermal Expansion Coefficient", "Friction Coefficient"}
CONTROLS = {}     # valid inputs this process has run
CRASHES = (-11, -8, -7, -4, 139, 136, 135, 132)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 2]))
    group = draw(st.sampled_from(GROUPS))
    kw = dict(np_max=np_, max_points=30, max_steps=3, nblocks=(1, 2, 2, 3), scales=(1.0,), offsets=(0.0,),
              laws=tuple(scen.STATE + scen.CORR + scen.BA), loads=("velocity", "pull", "body", "displaced"))
    if group == "contact":
        kw.update(laws=("elastic", "plastic", "bond"), contact=(True,), loads=("velocity", "body"))
    s = draw(scen.scenarios(**kw))
    return {"group": group, "np": np_, "fmt": draw(st.sampled_from(["xml", "xml", "yaml"])), "scenario": s,
            "kind": draw(st.integers(0, 119)), "item": draw(st.integers(0, 59)), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


class Input:
    """A deck and its files; deck text, once set, replaces the parameters."""

    def __init__(self, p, f, fmt):
        self.p, self.f, self.fmt, self.text, self.name = p, f, fmt, None, "deck"

    def copy(self):
        return copy.deepcopy(self)

    def run(self, np_):
        with runner.WorkDir() as wd:
            if self.text is None:
                return runner.peridigm(self.p, self.f, np_, fmt=self.fmt, directory=wd, deckname=self.name)
            if self.text is not False:
                with open(os.path.join(wd, self.name), "w") as g:
                    g.write(self.text)
            return runner.peridigm(self.p, self.f, np_, fmt="raw", directory=wd, deckname=self.name)


def edit(path, value=None, drop=False):
    """A mutation that sets or drops one entry."""
    def go(i):
        d = i.p
        for k in path[:-1]:
            d = d[k]
        if drop:
            del d[path[-1]]
        else:
            d[path[-1]] = value
    return go


def damages(p):
    """The damage models some block uses."""
    used = [e.get("Damage Model") for e in p["Blocks"].values()]
    return [(m, e) for m, e in p.get("Damage Models", {}).items() if m in used]


def missing(i, s, r):
    p, out = i.p, []
    for m, e in p["Materials"].items():
        out += [("material without " + k, edit(("Materials", m, k), drop=True)) for k in e if k not in OPTIONAL]
        for k, v in e.items():
            if isinstance(v, dict):
                out += [("hardening rule without " + q, edit(("Materials", m, k, q), drop=True)) for q in v]
    for b in p["Blocks"]:
        out += [("block without " + k, edit(("Blocks", b, k), drop=True)) for k in ("Block Names", "Material", "Horizon")]
        out.append(("mesh block without an entry", edit(("Blocks", b), drop=True)))
    for m, e in damages(p):
        out += [("damage model without " + k, edit(("Damage Models", m, k), drop=True)) for k in e]
        out.append(("damage models missing", edit(("Damage Models",), drop=True)))
    for b, e in p["Boundary Conditions"].items():
        if isinstance(e, dict):
            out += [("condition without " + k, edit(("Boundary Conditions", b, k), drop=True)) for k in ("Type", "Node Set", "Value")]
        else:
            out.append(("condition on a missing node set", edit(("Boundary Conditions", b), drop=True)))
    out += [("discretization without " + k, edit(("Discretization", k), drop=True)) for k in ("Type", "Input Mesh File")]
    out += [("no " + k, edit((k,), drop=True)) for k in ("Materials", "Blocks", "Discretization")]
    out.append(("solver without a method", edit(("Solver", "Verlet"), drop=True)))
    return out


def unknown(i, s, r):
    p, out = i.p, []
    wrong = ["Nonsense", "elastick", "Node Set 77", "block_77", ""][int(r.integers(0, 5))]
    for m, e in p["Materials"].items():
        out.append(("unknown material model", edit(("Materials", m, "Material Model"), e["Material Model"] + " X")))
        if "Hardening Rule" in e:
            out.append(("unknown hardening rule", edit(("Materials", m, "Hardening Rule"), "X")))
        if "Dilatation Influence Function" in e:
            out.append(("unknown influence function", edit(("Materials", m, "Dilatation Influence Function"), "Foo")))
    for b, e in p["Blocks"].items():
        out.append(("unknown material", edit(("Blocks", b, "Material"), "m77")))
        out.append(("unknown damage model", edit(("Blocks", b, "Damage Model"), "d77")))
        out.append(("unknown mesh block", edit(("Blocks", b, "Block Names"), e["Block Names"] + " block_77")))
        out.append(("only an unknown mesh block", edit(("Blocks", b, "Block Names"), "block_77")))
        out.append(("horizon expression of unknown names", edit(("Blocks", b, "Horizon"), "%r*qq" % float(e["Horizon"]))))
    for m, e in damages(p):
        out.append(("unknown damage model type", edit(("Damage Models", m, "Damage Model"), "Critical Strech")))
    for b, e in p["Boundary Conditions"].items():
        if isinstance(e, dict):
            out.append(("condition on an unknown node set", edit(("Boundary Conditions", b, "Node Set"), wrong)))
            out.append(("unknown condition type", edit(("Boundary Conditions", b, "Type"), e["Type"] + " X")))
            out.append(("unknown coordinate", edit(("Boundary Conditions", b, "Coordinate"), str(r.choice(["w", "4", "xy"])))))
    out.append(("unknown discretization", edit(("Discretization", "Type"), "Text Fil")))
    out.append(("missing mesh file", edit(("Discretization", "Input Mesh File"), "other.txt")))
    out.append(("unknown influence function", edit(("Discretization", "Influence Function"), str(r.choice(["Foo", "zeta*", "foo(zeta)"])))))
    out.append(("unknown output variable", edit(("Output", "Output Variables", "Foo"), True)))
    if s.law not in ("plastic", "hardening"):
        out.append(("output variable no material has", edit(("Output", "Output Variables", "Lambda"), True)))
    out.append(("unknown output file type", edit(("Output", "Output File Type"), "Foo")))
    out.append(("unknown solver", lambda j: j.p["Solver"].update({"Verlett": j.p["Solver"].pop("Verlet")})))
    return out


def contradiction(i, s, r):
    p, out = i.p, []
    for m, e in p["Materials"].items():
        for k, v in (("Young's Modulus", 2e9), ("Poisson's Ratio", 0.2)):
            out.append(("too many elastic constants", edit(("Materials", m, k), v)))
        out.append(("horizon in a material", edit(("Materials", m, "Horizon"), float(s.hor[0]))))
        law = s.laws[int(m[1:])]
        if law in ("plastic", "hardening", "visco") or law.startswith(("hypo", "ba")) or law in ("corr plastic", "corr hardening", "corr visco"):
            out.append(("temperature not supported by the law", edit(("Materials", m, "Thermal Expansion Coefficient"), 1e-5)))
        if law == "visco" or law.startswith(("corr", "hypo", "ba")):
            out.append(("derivatives not supported by the law", edit(("Materials", m, "Apply Automatic Differentiation Jacobian"), True)))
            out.append(("correction not supported by the law", edit(("Materials", m, "Apply Shear Correction Factor"), True)))
        if law == "bond":
            def plane(j, m=m):
                j.p["Materials"][m].update({"Plane Strain": True, "Plane Stress": True, "Height": 1.0})
            out.append(("plane strain and plane stress", plane))
            out.append(("plane strain without height", edit(("Materials", m, "Plane Strain"), True)))
        out.append(("multiphysics law in a mechanical run", edit(("Materials", m, "Material Model"), "Multiphysics Elastic")))
    names = list(p["Blocks"])
    for b in names:
        e = dict(p["Blocks"][b])
        out.append(("block defined twice", edit(("Blocks", "again"), e)))
        if len(names) > 1:
            out.append(("mesh block in two entries", edit(("Blocks", b, "Block Names"), " ".join(p["Blocks"][k]["Block Names"] for k in names))))
    out.append(("horizon in the discretization", edit(("Discretization", "Horizon"), float(s.hor[0]))))
    out.append(("mechanical law in a multiphysics run", edit(("Multiphysics",), "Deformation and Diffusion")))
    for b, e in p["Boundary Conditions"].items():
        if not isinstance(e, dict):
            out.append(("node set defined twice", edit(("Boundary Conditions", b.upper()), e)))
    out.append(("stray entry among the conditions", edit(("Boundary Conditions", "Foo"), "1 2")))
    return out


def mesh(i, s, r):
    name = i.p["Discretization"]["Input Mesh File"]
    lines = i.f[name].splitlines()
    data = [k for k, l in enumerate(lines) if l.strip() and l.strip()[0] not in "#/*"]
    k = data[int(r.integers(len(data)))]
    w = lines[k].split()

    def line(*text):
        def go(j):
            j.f[name] = "\n".join(lines[:k] + list(text) + lines[k + 1:]) + "\n"
        return go
    col = int(r.integers(0, 5))
    out = [("column missing", line(" ".join(w[:col] + w[col + 1:]))),
           ("line cut", line(" ".join(w[:int(r.integers(1, 5))]))),
           ("extra column", line(lines[k] + " 1.0")),
           ("word in place of a number", line(" ".join(w[:col] + [str(r.choice(["abc", "x", "one", "--"]))] + w[col + 1:]))),
           ("number followed by letters", line(" ".join(w[:col] + [w[col] + "q"] + w[col + 1:]))),
           ("point of an unlisted block", line(" ".join(w[:3] + ["77"] + w[4:]))),
           ("commas", line(", ".join(w))),
           ("two points on a line", line(lines[k] + " " + lines[k])),
           ("empty file", lambda j: j.f.update({name: ""})),
           ("only comments", lambda j: j.f.update({name: "# a comment\n"}))]
    return out


def sets(i, s, r):
    p, out = i.p, []
    names = [b for b, e in p["Boundary Conditions"].items() if not isinstance(e, dict)]
    used = [b for b in names if any(isinstance(e, dict) and e["Node Set"] == b for e in p["Boundary Conditions"].values())]
    for b in used:
        numbers = p["Boundary Conditions"][b].split()
        at = int(r.integers(0, len(numbers) + 1))
        for why, word in (("0", "0"), ("a number beyond the points", str(s.n + 1 + int(r.integers(0, 50)))), ("a negative number", "-1"),
                          ("a word", "two"), ("a fraction", "1.5"), ("a number with letters", "1a")):
            text = numbers[:at] + [word] + numbers[at:]
            out.append(("node set with " + why, edit(("Boundary Conditions", b), " ".join(text))))

            def file(j, b=b, text=text):
                j.p["Boundary Conditions"][b] = "set.txt"
                j.f["set.txt"] = "\n".join(text) + "\n"
            out.append(("node set file with " + why, file))
        out.append(("missing node set file", edit(("Boundary Conditions", b), "set.txt")))
    return out


def loads(i, s, r):
    p, out = i.p, []
    T = s.tf
    for b, e in p["Boundary Conditions"].items():
        if not isinstance(e, dict):
            continue
        for bad in ("%s*" % e["Value"], "(%s" % e["Value"], "foo(x)", "1.0*qq", "", "value = ", "1.0 + + * 2.0"):
            out.append(("malformed expression %s" % e["Type"], edit(("Boundary Conditions", b, "Value"), bad)))
        for bad in ("log(0.0 - 1.0)", "1.0/(x - x)", "sqrt(0.0 - 1.0 - x*x)"):
            out.append(("load that is not a number %s" % e["Type"], edit(("Boundary Conditions", b, "Value"), bad)))
        if e["Type"] in ("Body Force", "Prescribed Displacement"):
            out.append(("load that stops being a number %s" % e["Type"],
                        edit(("Boundary Conditions", b, "Value"), "sqrt(%s - t)" % gen.num(0.3 * s.dt))))
            only = int(p["Boundary Conditions"][e["Node Set"]].split()[0]) - 1
            x = s.x[only]
            out.append(("load that is not a number at one point %s" % e["Type"],
                        edit(("Boundary Conditions", b, "Value"),
                             "value = 0.0; if ((x - %s)*(x - %s) + (y - %s)*(y - %s) + (z - %s)*(z - %s) < %s) { value = log(0.0 - t); }" % (
                                 (gen.num(x[0]),) * 2 + (gen.num(x[1]),) * 2 + (gen.num(x[2]),) * 2 + (gen.num((1e-6 * s.h) ** 2),)))))
    return out


def file(i, s, r):
    text = deck.to_xml(i.p) if i.fmt == "xml" else deck.to_yaml(i.p)

    def put(t, name="deck." + i.fmt):
        def go(j):
            j.text, j.name = t, name
        return go
    out = [("empty deck", put("")), ("missing deck", put(False)), ("unknown file extension", put(text, "deck.txt")),
           ("no file extension", put(text, "deck"))]
    if i.fmt == "xml":
        out.append(("deck cut", put(text[:int(r.integers(1, len(text.rstrip()) - 1))])))
        k = text.index("</ParameterList>", int(r.integers(0, len(text) - 20)))
        out.append(("closing tag missing", put(text[:k] + text[k + 16:])))
        k = text.index("type=\"", int(r.integers(0, text.rindex("type=\"")))) + 6
        out.append(("unknown parameter type", put(text[:k] + "q" + text[k:])))
        out.append(("xml in a yaml file", put(text[:-3], "deck.yaml")))
    else:
        out.append(("yaml in an xml file", put(text, "deck.xml")))
        k = text.index("\n", int(r.integers(0, text.rindex("\n"))))
        out.append(("stray bracket", put(text[:k] + "\n]: [" + text[k:])))
    return out


def contact(i, s, r):
    p, out = i.p, []
    c = p["Contact"]
    out += [("contact without " + k, edit(("Contact", k), drop=True)) for k in c if k != "Interactions"]
    m = list(c["Models"])[0]
    out += [("contact model without " + k, edit(("Contact", "Models", m, k), drop=True)) for k in c["Models"][m] if k not in OPTIONAL]
    out.append(("contact without models", edit(("Contact", "Models"), {})))
    out.append(("unknown contact model type", edit(("Contact", "Models", m, "Contact Model"), "Long Range Force")))
    out.append(("horizon in a contact model", edit(("Contact", "Models", m, "Horizon"), 1.0)))
    one = {"First Block": "block_1", "Second Block": "block_2", "Contact Model": m}
    out += [("contact interaction without " + k, edit(("Contact", "Interactions", "I1"), {q: v for q, v in one.items() if q != k})) for k in one]
    for k, v in (("First Block", "block_77"), ("Second Block", "block_77"), ("First Block", "Foo"), ("Contact Model", "Foo")):
        out.append(("contact interaction of an unknown " + k, edit(("Contact", "Interactions", "I1"), dict(one, **{k: v}))))
    out.append(("general contact without model", edit(("Contact", "Interactions", "General Contact"), {})))
    out.append(("general contact of an unknown model", edit(("Contact", "Interactions", "General Contact", "Contact Model"), "Foo")))
    out.append(("contact of a block with a variable horizon",
                edit(("Blocks", list(p["Blocks"])[0], "Horizon"), "%s + 0.0*x" % gen.num(s.hor[0]))))
    return out


def derived(i, s, r):
    good = {"Compute Class": "Block_Data", "Block": "block_1", "Variable": "Displacement", "Calculation Type": "Maximum", "Output Label": "Q"}
    near = {"Compute Class": "Nearest_Point_Data", "X": 0.0, "Y": 0.0, "Z": 0.0, "Variable": "Displacement", "Output Label": "Q"}
    out = []

    def use(e):
        def go(j):
            j.p["Compute Class Parameters"] = {"C1": e}
            j.p["Output"]["Output Variables"]["Q"] = True
        return go
    for g in (good, near):
        out += [("derived quantity without " + k, use({q: v for q, v in g.items() if q != k})) for k in g]
        out += [("derived quantity with unknown " + k, use(dict(g, **{k: "Foo"}))) for k in ("Compute Class", "Block", "Variable", "Calculation Type") if k in g]
    out.append(("entry in place of a derived quantity", edit(("Compute Class Parameters",), {"C1": "Foo"})))
    return out


def wrong_type(i, s, r):
    """A word where a number belongs, or a list where an entry belongs."""
    p, out = i.p, []
    used = [m for m, e in damages(p)]

    def walk(d, path):
        for k, v in d.items():
            here = path + (k,)
            if path == ("Damage Models",) and k not in used:
                continue
            if isinstance(v, dict):
                if here[0] in ("Materials", "Blocks", "Boundary Conditions", "Solver", "Damage Models") and k != "Output Variables":
                    out.append(("entry in place of list " + "/".join(here[-1:] if len(here) == 1 else (here[0], "*")), edit(here, 1.5)))
                walk(v, here)
            elif isinstance(v, bool):
                continue
            elif isinstance(v, (int, float)) and k not in ("Horizon",) and here[0] in ("Materials", "Damage Models", "Solver"):
                out.append(("word in place of number " + k, edit(here, "abc")))
    walk(p, ())
    return out


MAKERS = {"missing": missing, "unknown": unknown, "contradiction": contradiction, "mesh": mesh, "sets": sets, "loads": loads, "file": file,
          "contact": contact, "derived": derived, "type": wrong_type}


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    p, f = scen.render(s)
    base = Input(p, f, case["fmt"])
    if case["group"] == "derived":
        # the valid form of the entries the mutations start from
        p["Compute Class Parameters"] = {"C0": {"Compute Class": "Block_Data", "Block": "block_1", "Variable": "Displacement",
                                                "Calculation Type": "Maximum", "Output Label": "Q0"}}
        p["Output"]["Output Variables"]["Q0"] = True
    r = gen.rng(case["seed"], 1)
    choices = MAKERS[case["group"]](base, s, r)
    if not choices:
        return Discard("mutation does not apply")
    kinds = sorted(set(c[0] for c in choices))
    kind = kinds[case["kind"] % len(kinds)]
    same = [c for c in choices if c[0] == kind]
    bad = base.copy()
    same[case["item"] % len(same)][1](bad)
    if case["group"] == "derived" and bad.p.get("Compute Class Parameters") is None:
        return Discard("mutation does not apply")
    key = case_key([case["scenario"], case["np"], case["fmt"], case["group"] == "derived"])
    if key not in CONTROLS:
        CONTROLS[key] = base.run(case["np"])
    c = CONTROLS[key]
    if c.timeout or c.code != 0:
        return Bad("a valid input ended with %s\n%s" % ("a timeout" if c.timeout else "status %s" % c.code, c.out[-1500:]))
    o = bad.run(case["np"])
    if o.timeout:
        return Bad("an invalid input (%s) hangs instead of being refused\n%s" % (kind, o.out[-1000:]))
    if o.code == 0:
        return Bad("an invalid input (%s) ended with success status" % kind)
    if o.code in CRASHES:
        return Bad("an invalid input (%s) crashed the program: status %s\n%s" % (kind, o.code, o.out[-1000:]))
    return Ok(case_key(case), [kind.split(" without")[0] if " without" in kind else kind, "group " + case["group"], "processes %d" % case["np"],
                               case["fmt"]])


def systematic():
    """Every kind of mutation once, and every parameter of every material law."""
    out = []
    for law in scen.LAWS:
        for group in MAKERS:
            if group not in ("missing", "contradiction") and law not in ("elastic", "bond"):
                continue
            con = group == "contact"
            if con and law != "elastic":
                continue
            load = "body" if law != "bond" else "pull"
            s = {"law": law, "cloud": {"kind": "lattice", "seed": 1, "scale": 1.0, "offset": 0.0, "dims": [3, 3, 3], "jitter": 0.1},
                 "nblocks": 2 if con or law == "bond" else 1, "how": "slabs", "factor": 2.6, "ratio": 1.0, "influence": "One", "mixed": False,
                 "damage": law in ("elastic", "bond"), "contact": con, "solver": "verlet", "steps": 1, "amp": 0.001, "load": load,
                 "level": 0.2, "thermal": False, "moduli": 1}
            b = scen.build(s)
            if b is None:
                continue
            np_ = 2 if law == "bond" else 1
            fmt = "yaml" if law == "bond" else "xml"
            c = {"group": group, "np": np_, "fmt": fmt, "scenario": s, "item": 0, "seed": 1}
            p, f = scen.render(b)
            kinds = sorted(set(k for k, go in MAKERS[group](Input(p, f, fmt), b, gen.rng(1, 1))))
            for k, name in enumerate(kinds):
                if law in ("elastic", "bond") or name.startswith(("material", "hardening", "temperature", "derivatives", "correction", "too")):
                    out.append(dict(c, kind=k))
    return out


FIXED = systematic()
