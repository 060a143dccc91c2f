"""Boundary and initial conditions."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case checks every degree of freedom of every point at every output time: named ones against the given expression, the "
        "others against the equation of motion with the loads given for them. It is non-trivial if at least two conditions of "
        "different type were given and some degree of freedom was named by none.")
TECHNIQUE = ("property-based testing of generated sets of conditions against direct evaluation of the expressions and the "
             "discrete equation of motion")
LEVEL_NOTE = ("Bodies of up to 40 points, up to 4 overlapping node sets given as lists or files, up to 10 conditions of all "
              "kinds with values as numbers, expressions or programs in x, y, z, t, explicit and quasi-static solution, up to "
              "6 steps, 1 to 4 processes.")
ASSUMPTIONS = ["no degree of freedom is named twice by conditions of the same type",
               "prescribed displacements start from the initial displacement of the point or do not depend on time"]
QUICK = dict(examples=2400, cap_s=21)
THOROUGH = dict(examples=50000, cap_s=1800)

SPACE = ("one", "linear", "wave", "branch")
TIME = ("constant", "ramp", "square", "sine", "pulse", "late", "hold")
FORMS = {"Prescribed Displacement": ["Prescribed Displacement", "PRESCRIBED_DISPLACEMENT", "prescribed displacement"],
         "Initial Displacement": ["Initial Displacement", "initial_displacement"],
         "Initial Velocity": ["Initial Velocity", "INITIAL VELOCITY"],
         "Body Force": ["Body Force", "body_force"],
         "Initial Temperature": ["Initial Temperature"],
         "Prescribed Temperature": ["Prescribed Temperature", "Prescribed_Temperature"]}


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 2, 3, 4]))
    return {"np": np_, "solver": draw(st.sampled_from(["verlet", "verlet", "verlet", "qs"])),
            "cloud": draw(gen.clouds(min_points=8 * np_ if np_ > 1 else 2, max_points=40, max_side=4,
                                     kinds=("lattice", "lattice", "random"), scales=(1.0, 1.0, 1e-2, 1e2),
                                     offsets=(0.0, 0.0, 1.0))),
            "factor": draw(st.sampled_from([0.5, 1.6, 2.3])),
            "sets": draw(st.integers(1, 4)),
            "conditions": draw(st.lists(st.tuples(st.sampled_from(["u", "u", "u0", "v0", "b", "b", "T", "T0"]), st.integers(0, 3),
                                                  st.integers(0, 2), st.sampled_from(SPACE), st.sampled_from(TIME),
                                                  st.booleans(), st.integers(0, 2)).map(list), min_size=1, max_size=10)),
            "t0": draw(st.sampled_from([0.0, 0.0, 0.0, 3.0])),
            "thermal": draw(st.booleans()),
            "steps": draw(st.integers(1, 6)), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def time_function(kind, t0, dt, N, r):
    """Program text computing a factor from t, and the same as a function."""
    T = N * dt
    th = t0 + (int(r.integers(0, N)) + 0.5) * dt
    a = float(r.uniform(0.5, 2))
    n = gen.num
    if kind == "constant":
        return None, lambda t: 1.0
    if kind == "ramp":
        return "(t-%s)*%s" % (n(t0), n(a / T)), lambda t: (t - t0) * a / T
    if kind == "square":
        return "((t-%s)*%s)^2.0" % (n(t0), n(a / T)), lambda t: ((t - t0) * a / T) ** 2
    if kind == "sine":
        return "sin((t-%s)*%s)" % (n(t0), n(3 * a / T)), lambda t: np.sin((t - t0) * 3 * a / T)
    if kind == "pulse":
        return "PROGRAM if (t < %s) { value = WHAT*%s; }" % (n(th), n(a)), lambda t: a if t < th else 0.0
    if kind == "late":
        return "PROGRAM if (t > %s) { value = WHAT*%s; }" % (n(th), n(a)), lambda t: a if t > th else 0.0
    return ("PROGRAM if (t < %s) { value = WHAT*(t-%s)*%s; } else { value = WHAT*%s; }" % (
        n(th), n(t0), n(a / T), n((th - t0) * a / T))), lambda t: (min(t, th) - t0) * a / T


def space_function(kind, amp, x, h, r):
    n = gen.num
    c = x.mean(0)
    if kind == "one":
        v = float(amp * r.uniform(-1, 1))
        return n(v), np.full(len(x), v), v
    if kind == "linear":
        g = amp / (h * 4) * r.uniform(-1, 1, 3)
        e = "(%s*(x-%s) + %s*(y-%s) + %s*(z-%s))" % (n(g[0]), n(c[0]), n(g[1]), n(c[1]), n(g[2]), n(c[2]))
    elif kind == "wave":
        q = r.uniform(-2, 2, 3) / h
        e = "(%s*sin(%s*x + %s*y + %s*z))" % (n(amp * r.uniform(0.3, 1)), n(q[0]), n(q[1]), n(q[2]))
    else:
        e = "(%s*(x > %s))" % (n(amp * r.uniform(0.3, 1)), n(c[0] + 0.037 * h))
    return e, gen.evaluate_expression(e, x), None


def node_set_text(idx, style, r):
    idx = [int(i) + 1 for i in r.permutation(idx)]
    if style == 0:
        return " ".join(map(str, idx)), None
    if style == 1:
        return "  ".join(map(str, idx + idx[:1])) + " ", None
    lines = ["# points", ""]
    k = 0
    while k < len(idx):
        m = int(r.integers(1, 6))
        lines.append(" ".join(map(str, idx[k:k + m])))
        k += m
        if r.random() < 0.2:
            lines.append("* 1 2 3")
    return None, "\n".join(lines) + ("\n" if r.random() < 0.5 else "")


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n = len(x)
    vol = gen.volumes(case["cloud"], n, h)
    r = gen.rng(case["seed"])
    K, rho = float(10 ** r.uniform(8, 10)), 3000.0
    mu = 0.6 * K
    qs = case["solver"] == "qs"
    hor = float(case["factor"] * h) if not qs else float(2.3 * h)
    b = ref.Body(x, vol, np.full(n, hor), "One")
    if b.ambiguous:
        return Discard("a tie at the horizon")
    N = case["steps"]
    dt = ref.critical_time_step(b, np.full(n, K), rho)
    dt = float(0.2 * dt) if np.isfinite(dt) else float(0.1 * h * np.sqrt(rho / K))
    t0 = case["t0"] * dt
    T = N * dt
    mat = {"Material Model": "Elastic", "Density": rho, "Bulk Modulus": K, "Shear Modulus": mu}
    if case["thermal"]:
        mat["Thermal Expansion Coefficient"] = 1e-5
    amp = 0.02 * h if not qs else 1e-3 * h
    # node sets
    bc, files, sets, names = {}, {}, [], []
    for k in range(case["sets"]):
        m = int(r.integers(1, n + 1))
        idx = np.sort(r.permutation(n)[:m])
        sets.append(idx)
        name = ["Node Set %d", "Left Node Set %d", "node_set_%d", "NODE SET%d"][k] % (k + 1)
        names.append(name)
        text, content = node_set_text(idx, int(r.integers(0, 3)), r)
        if content is not None:
            text = "set%d.txt" % k
            files[text] = content
        bc[name] = text
    if qs:
        # most points follow a prescribed motion so that the others are held in place
        free = r.random(n) < 0.25
        idx = np.flatnonzero(~free)
        if len(idx) < 4:
            return Discard("too few points to hold a static body")
        sets = [idx] + sets
        names = ["Node Set Held"] + names
        bc["Node Set Held"] = gen.node_list(idx)
        conditions = [["u", 0, k, ["linear", "wave"][int(r.integers(0, 2))], ["ramp", "sine", "hold"][int(r.integers(0, 3))], False, 0]
                      for k in range(3)]
        conditions += [[t, s + 1, k, a, c, d, e] for t, s, k, a, c, d, e in case["conditions"] if t in ("T", "T0")]
    else:
        conditions = case["conditions"]
    NAME = {"u": "Prescribed Displacement", "u0": "Initial Displacement", "v0": "Initial Velocity", "b": "Body Force",
            "T": "Prescribed Temperature", "T0": "Initial Temperature"}
    scale = {"u": amp, "u0": amp, "v0": amp / T, "b": amp / T ** 2 * rho * 2, "T": 50.0, "T0": 50.0}
    used = {k: np.zeros((n, 3), bool) for k in NAME}
    presc = np.zeros((n, 3), bool)
    want_u = [[None] * 3 for _ in range(n)]      # functions of time
    U0, V0 = np.zeros((n, 3)), np.zeros((n, 3))
    body = []
    T0 = np.zeros(n)
    tempf = [None] * n
    settled = np.ones((n, 3), bool)              # prescribed value holds at the start as well
    kinds = set()
    todo = []
    for typ, s, c, space, tim, numeric, form in conditions:
        s = s % len(sets)
        idx = sets[s]
        if typ in ("T", "T0"):
            if not case["thermal"]:
                continue
            c = 0
        if typ in ("u0", "v0", "T0"):
            tim = "constant"
        if used[typ][idx, c].any():
            continue
        e, vals, number = space_function(space, scale[typ], x, h, r)
        prog, f = time_function(tim, t0, dt, N, r)
        if typ == "u" and tim == "pulse":
            # starts away from zero: give the same initial displacement unless another one is there
            if used["u0"][idx, c].any():
                continue
            used["u0"][idx, c] = True
            U0[idx, c] = vals[idx] * f(t0)
            todo.append(("u0", s, c, "%s*%s" % (e, gen.num(f(t0))), 0))
        if prog is None:
            value = number if (numeric and number is not None) else e
        elif prog.startswith("PROGRAM"):
            value = prog[8:].replace("WHAT", e)
        else:
            value = "%s*%s" % (e, prog)
        used[typ][idx, c] = True
        todo.append((typ, s, c, value, form))
        kinds.add(typ)
        if typ == "u":
            presc[idx, c] = True
            for i in idx:
                want_u[i][c] = (vals[i], f)
            settled[idx, c] = tim != "constant"
        elif typ == "u0":
            U0[idx, c] = vals[idx]
        elif typ == "v0":
            V0[idx, c] = vals[idx]
        elif typ == "b":
            body.append((idx, c, vals, f))
        elif typ == "T":
            for i in idx:
                tempf[i] = (vals[i], f)
        else:
            T0[idx] = vals[idx]
    # a prescribed motion that starts from zero needs a point that starts from there
    clash = presc & settled & used["u0"]
    if clash.any():
        for i, c in np.argwhere(clash):
            v, f = want_u[i][c]
            if abs(v * f(t0) - U0[i, c]) > 1e-12 * amp:
                return Discard("prescribed motion does not start from the initial displacement")
    for k, (typ, s, c, value, form) in enumerate(todo):
        forms = FORMS[NAME[typ]]
        nm = names[s]
        e = {"Type": forms[form % len(forms)], "Node Set": [nm, nm.upper(), nm.replace(" ", "_")][form], "Value": value}
        if typ not in ("T", "T0") and not (c == 0 and form == 1):
            e["Coordinate"] = ["xyz"[c], "XYZ"[c]][form % 2]
        bc["condition %d" % k] = e
    if qs:
        solver = {"Verbose": False, "Initial Time": t0, "Final Time": t0 + T,
                  "QuasiStatic": {"Number of Load Steps": N, "Absolute Tolerance": float(1e-7 * K * amp * h), "Maximum Solver Iterations": 40}}
    else:
        solver = {"Verbose": False, "Initial Time": t0, "Final Time": t0 + (N + 0.5) * dt, "Verlet": {"Fixed dt": dt}}
    p, f = gen.text_deck(x, vol, np.ones(n, int), {"b": {"Block Names": "block_1", "Material": "m", "Horizon": hor}}, {"m": mat},
                         ["Displacement", "Velocity", "Force_Density", "Coordinates"] + ["Temperature"] * case["thermal"], solver=solver, bc=bc, files=files)
    if qs:
        with runner.WorkDir() as wd:
            try:
                o = runner.simulate(p, f, case["np"], points=n, directory=wd)
            except runner.Broken as e:
                if "converge" in e.out:
                    return Discard("the static solution did not converge")
                raise
        if o.nt != N + 1:
            return Discard("load steps were subdivided")
    else:
        o = runner.simulate(p, f, case["np"], points=n, steps=N + 1)
    times = t0 + np.arange(N + 1) * dt
    if not np.allclose(o.times, times, rtol=1e-9, atol=1e-12 * dt):
        return Bad("output times %s instead of %s" % (o.times.tolist(), times.tolist()))
    u, v, F = exo.vec(o, "Displacement"), exo.vec(o, "Velocity"), exo.vec(o, "Force_Density")
    if not (np.isfinite(u).all() and np.isfinite(v).all() and np.isfinite(F).all()):
        return Bad("a result is not a number")
    size = max(np.abs(u).max(), amp * 1e-3)
    tags = ["solver " + case["solver"], "processes %d" % case["np"]] + ["type " + k for k in sorted(kinds)]

    def where(t, i, c):
        return "output %d (t = %.6g), point %d, component %s" % (t, times[t], i + 1, "xyz"[c])
    # start
    for what, got, want, tol in (("displacement", u[0], U0, 1e-12 * amp), ("velocity", v[0], V0, 1e-12 * amp / T)):
        d = np.abs(got - want)
        if (d > tol + 1e-11 * np.abs(want)).any():
            i, c = np.unravel_index(np.argmax(d), d.shape)
            return Bad("initial %s at %s is %r, given is %r" % (what, where(0, i, c), float(got[i, c]), float(want[i, c])))
    # everything else sees the given displacements
    y = exo.vec(o, "Coordinates")
    d = np.abs(y - x - u)
    if d.max() > 1e-10 * size + 1e-13 * np.abs(x).max():
        t, i, c = np.unravel_index(np.argmax(d), d.shape)
        return Bad("coordinates at %s are %r, reference position and displacement add up to %r" % (
            where(t, i, c), float(y[t, i, c]), float(x[i, c] + u[t, i, c])))
    for t in range(N + 1) if not case["thermal"] else []:
        tv, _ = ref.lps(b, x + u[t], K, mu)
        want = b.assemble(tv)
        d = np.abs(F[t] - want).max(1)
        tol = 1e-6 * np.abs(b.magnitude(tv)).max() + 1e-6 * K * amp / h / h
        if d.max() > tol:
            i = int(np.argmax(d))
            return Bad("force density at %s is %s, the displacements give %s" % (where(t, i, 0), F[t, i].tolist(), want[i].tolist()))
    # prescribed displacements
    for t in range(N + 1):
        for i in range(n):
            for c in range(3):
                if want_u[i][c] is None or (t == 0 and not settled[i, c]):
                    continue
                val, f = want_u[i][c]
                w = val * f(times[t])
                if abs(u[t, i, c] - w) > 1e-10 * size + 1e-10 * abs(w):
                    return Bad("prescribed displacement at %s is %r, the expression gives %r" % (
                        where(t, i, c), float(u[t, i, c]), float(w)))
    # temperatures
    temp = o.nodal["Temperature"] if case["thermal"] else None
    for t in range(N + 1) if case["thermal"] else []:
        for i in range(n):
            w = T0[i] if tempf[i] is None else tempf[i][0] * tempf[i][1](times[t])
            if abs(temp[t, i] - w) > 1e-10 * (50 + abs(w)):
                return Bad("temperature at %s is %r, given is %r" % (where(t, i, 0), float(temp[t, i]), float(w)))
    if not qs:
        B = np.zeros((N + 1, n, 3))
        for idx, c, vals, f in body:
            for t in range(N + 1):
                B[t, idx, c] = vals[idx] * f(times[t])
        a = (F + B) / rho
        free = ~presc
        vs = max(np.abs(v).max(), np.abs(a).max() * dt, size / dt * 1e-2)
        for t in range(N):
            du = u[t + 1] - u[t] - dt * v[t] - dt * dt / 2 * a[t]
            dv = v[t + 1] - v[t] - dt / 2 * (a[t] + a[t + 1])
            for what, d, tol in (("displacement", du, 1e-9 * vs * dt), ("velocity", dv, 1e-9 * vs)):
                d = np.where(free, np.abs(d), 0.0)
                if (d > tol).any():
                    i, c = np.unravel_index(np.argmax(d), d.shape)
                    return Bad("%s at %s does not follow from the forces and given loads on it: off by %.6g (tolerance %.3g, body "
                               "force %.6g)" % (what, where(t + 1, i, c), float(d[i, c]), tol, B[t + 1, i, c]))
    named = presc | used["b"]
    if len(kinds) >= 2 - (1 if qs else 0) and not named.all():
        return Ok(case_key(case), tags)
    return Ok(None, tags)
