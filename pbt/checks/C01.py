"""Short-range contact between unbonded points."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case computes the contact force of every point and step from the reported positions over all pairs of points. It is "
        "non-trivial if some pair is in contact and some unbonded pair is inside the search radius but not in contact.")
TECHNIQUE = "property-based testing against direct enumeration of all pairs on generated driven and free motions"
LEVEL_NOTE = ("Random bodies of up to 60 points in up to 3 blocks, bonds inside or across blocks, constant and time-dependent "
              "friction, search every 1 to 4 steps, up to 8 steps, 1 to 4 processes.")
ASSUMPTIONS = ["every pair of blocks and every block with itself is named in the interactions with the same model",
               "no bonds break", "cases in which a pair ties with a radius or barely slides are skipped"]
QUICK = dict(examples=2400, cap_s=20)
THOROUGH = dict(examples=50000, cap_s=1800)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 2, 3, 4]))
    nb = draw(st.sampled_from([1, 2, 2, 3]))
    return {"np": np_, "mode": draw(st.sampled_from(["driven", "driven", "free"])), "nb": nb,
            "how": draw(st.sampled_from(["random", "slabs"])),
            "law": draw(st.sampled_from(["elastic", "bond"])),
            "cloud": draw(gen.clouds(min_points=max(nb, 8 * np_ if np_ > 1 else 2), max_points=60, max_side=5,
                                     kinds=("lattice", "lattice", "random"), scales=(1.0, 1.0, 1e-2),
                                     offsets=(0.0, 0.0, 1.0))),
            "factor": draw(st.sampled_from([0.5, 1.05, 1.6])), "ratio": draw(st.sampled_from([1.0, 1.3])),
            "omit": draw(st.booleans()),
            "amp": draw(st.sampled_from([0.05, 0.2, 0.4])),
            "radius": draw(st.sampled_from([0.7, 1.02, 1.5])),
            "frequency": draw(st.integers(1, 4)),
            "slack": draw(st.sampled_from([1.02, 1.3, 2.5])),
            "friction": draw(st.sampled_from(["none", "none", "constant", "time"])),
            "steps": draw(st.integers(1, 8)), "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def evaluate(case):
    x, h = gen.points(case["cloud"])
    n, nb = len(x), case["nb"]
    if nb > n:
        return Discard("too few points for the blocks")
    vol = gen.volumes(case["cloud"], n, h)
    blk = gen.assign_blocks(x, nb, case["how"], case["cloud"]["seed"])
    if blk is None:
        return Discard("too few points for the blocks")
    r = gen.rng(case["seed"])
    K = 10 ** r.uniform(9, 10) * r.uniform(0.7, 1.4, nb)
    mu = 0.6 * K
    rho = 4000.0
    ratio = case["ratio"] if case["omit"] else 1.0
    hb = case["factor"] * h * ratio ** np.arange(nb)
    A = blk[:, None] == blk[None] if case["omit"] else None
    b = ref.Body(x, vol, hb[blk], "One", A)
    if b.ambiguous:
        return Discard("a tie at the horizon")
    bonded = np.zeros((n, n), bool)
    bonded[b.I, b.J] = True
    N = case["steps"]
    dt = ref.critical_time_step(b, K[blk], rho)
    dt = float(0.2 * dt) if np.isfinite(dt) else float(0.1 * h * np.sqrt(rho / K.max()))
    T = N * dt
    rc = case["radius"] * h * float(r.uniform(0.95, 1.05))
    spring = float(K.mean() * r.uniform(0.05, 0.5))
    mats, blocks = {}, {}
    for k in range(nb):
        m = {"Density": rho, "Bulk Modulus": float(K[k])}
        if case["law"] == "elastic":
            m.update({"Material Model": "Elastic", "Shear Modulus": float(mu[k])})
        else:
            m["Material Model"] = "Elastic Bond Based"
        mats["m%d" % k] = m
        blocks["b%d" % k] = {"Block Names": "block_%d" % (k + 1), "Material": "m%d" % k, "Horizon": float(hb[k])}
    shape = gen.motion_expressions({"kind": "waves", "amp": case["amp"], "seed": case["seed"]}, x, h)
    bc = {}
    drift = r.uniform(-1, 1, (nb, 3)) * case["amp"] * h
    for k in range(nb):
        bc["Node Set %d" % (k + 1)] = gen.node_list(np.nonzero(blk == k)[0])
    for k in range(nb):
        for c in range(3):
            e = {"Node Set": "Node Set %d" % (k + 1), "Coordinate": "xyz"[c]}
            v = "(%s + %s)*%s" % (shape[c], gen.num(drift[k, c]), gen.num(1 / T))
            if case["mode"] == "driven":
                e.update({"Type": "Prescribed Displacement", "Value": "(%s)*t" % v})
            else:
                e.update({"Type": "Initial Velocity", "Value": v})
            bc["load %d %d" % (k, c)] = e
    u1 = np.stack([gen.evaluate_expression(shape[c], x) for c in range(3)], 1) + drift[blk]
    per_step = float(np.linalg.norm(u1, axis=1).max() / N)
    freq = case["frequency"]
    search = rc + case["slack"] * 2 * per_step * (freq + 1)
    mucoef = float(r.uniform(0.1, 0.8))
    model = {"Contact Model": "Short Range Force", "Contact Radius": rc, "Spring Constant": spring}
    fric = lambda t: 0.0
    if case["friction"] == "constant":
        model["Friction Coefficient"] = mucoef
        fric = lambda t: mucoef
    elif case["friction"] == "time":
        coef = "%s*(1.0 + t*%s)" % (gen.num(mucoef), gen.num(0.7 / T))
        model.update({"Contact Model": "Time Dependent Short Range Force", "Friction Coefficient": coef})
        fric = lambda t: float(gen.evaluate_expression(coef, x[:1], t)[0])
    contact = {"Search Radius": float(search), "Search Frequency": freq, "Models": {"model": model},
               "Interactions": {"General Contact": {"Contact Model": "model"}, "Self Contact": {"Contact Model": "model"}}}
    solver = {"Verbose": False, "Initial Time": 0.0, "Final Time": float((N + 0.5) * dt), "Verlet": {"Fixed dt": dt}}
    disc = {"Omit Bonds Between Blocks": "All"} if case["omit"] else {}
    p, f = gen.text_deck(x, vol, blk + 1, blocks, mats, ["Displacement", "Velocity", "Force_Density", "Contact_Force_Density"],
                         solver=solver, bc=bc, contact=contact, disc=disc)
    o = runner.simulate(p, f, case["np"], points=n, steps=N + 1)
    ys = x + exo.vec(o, "Displacement")
    scale = 0.0
    m = b.weighted_volume()
    stiff = np.max(b.magnitude(((9 * K[blk] + 15 * mu[blk])[b.I] / m[b.I] * h)[:, None] * [[1, 0, 0]]), initial=0.0) * h
    eps = 1e-14 * (np.abs(ys).max() + h) / h
    touching, apart, late = 0, 0, False
    for t in range(o.nt):
        y = ys[t]
        if not np.all(np.isfinite(y)):
            return Bad("positions are not finite")
        # the search before step t uses the positions of the step before
        searched = 0 if t < freq else (t // freq) * freq - 1
        moved = np.linalg.norm(ys[searched:t + 1] - ys[searched], axis=2).max()
        if rc + 2 * moved > search * (1 - 1e-9):
            return Discard("motion exceeds what the search covers")
        D = y[None] - y[:, None]
        d = np.linalg.norm(D, axis=2)
        np.fill_diagonal(d, np.inf)
        if np.any(np.abs(d - rc) < 1e-10 * h) or d.min(initial=np.inf) < 1e-6 * h:
            return Discard("a pair ties with the contact radius")
        I, J = np.nonzero((d < rc) & ~bonded)
        touching += len(I)
        apart += int(np.sum((d < search) & (d > rc) & ~bonded))
        late |= t >= freq and len(I) > 0
        e = (rc - d[I, J]) * spring * 9 / np.pi
        temp = e / hb[blk[I]] ** 5 + e / hb[blk[J]] ** 5
        nrm = D[I, J] / d[I, J][:, None]
        F = np.zeros((n, 3))
        mag = np.zeros(n)
        normal = temp * vol[J]
        np.add.at(F, I, -normal[:, None] * nrm)
        np.add.at(mag, I, normal)
        q = fric(float(o.times[t]))
        if q:
            v = exo.vec(o, "Velocity", 0) if t == 0 else (ys[t] - ys[t - 1]) / dt
            w = v[I] - v[J]
            w = w - np.sum(w * nrm, 1)[:, None] * nrm
            s = np.linalg.norm(w, axis=1)
            rest = s == 0
            if np.any(~rest & (s < 1e-6 * np.abs(v).max())):
                return Discard("a pair barely slides")
            np.add.at(F, I, -q * normal[:, None] * w / np.where(rest, 1, s)[:, None])
        scale = max(scale, mag.max(initial=0))
        vmax = np.abs(exo.vec(o, "Velocity")).max() + 1e-300
        tol = 1e-8 * scale + 1e3 * eps * spring / h ** 2 + (scale * eps * h / (dt * vmax) * 1e6 * 0.01 if q else 0)
        got = exo.vec(o, "Contact_Force_Density", t)
        err = np.abs(got - F).max(1)
        if not np.all(err <= tol):
            i = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
            return Bad("step %d: contact force density of point %d is %s, from its %d touching points it is %s (tolerance %g)" % (
                t, i + 1, got[i].tolist(), int(np.sum(I == i)), F[i].tolist(), tol))
        if case["law"] == "elastic":
            tv = ref.lps(b, y, K[blk], mu[blk])[0]
        else:
            tv = ref.bond_based(b, y, K[blk])
            tv = tv[0] if isinstance(tv, tuple) else tv
        total = b.assemble(tv) + F
        fm = np.max(b.magnitude(tv), initial=0.0)
        err = np.abs(exo.vec(o, "Force_Density", t) - total).max(1)
        tol2 = tol + 1e-8 * fm + 100 * eps * stiff
        if not np.all(err <= tol2):
            i = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
            return Bad("step %d: force density of point %d is not the sum of internal and contact force: error %g" % (
                t, i + 1, err[i]))
    return Ok(case_key(case) if touching and apart else None,
              ["np=%d" % case["np"], "mode " + case["mode"], "friction " + case["friction"], "blocks %d" % nb,
               "search every %d" % freq] + (["contact after a new search"] if late else []) + (["contact"] if touching else []))
