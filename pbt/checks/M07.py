"""Stored energy is the potential of the elastic forces."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner, scen
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case moves a body along a straight path between two random deformations and compares the change of stored energy "
        "with the work of the reported forces, or runs a free vibration with two time steps. It is non-trivial if the energy "
        "is well above rounding.")
TECHNIQUE = "property-based testing of work and energy on generated deformation paths and free vibrations"
LEVEL_NOTE = ("Random bodies of up to 64 points, elastic and position-aware materials, several influence functions and "
              "horizons, 1 to 3 processes. The work integral is Simpson's rule over 8 intervals.")
ASSUMPTIONS = ["no bond is broken", "the temperature is uniform and constant"]
QUICK = dict(examples=2400, cap_s=20)
THOROUGH = dict(examples=60000, cap_s=1800)


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 2, 3]))
    mode = draw(st.sampled_from(["path", "path", "path", "vibration", "rigid"]))
    s = draw(scen.scenarios(laws=("elastic", "elastic", "pals"), np_max=np_, damage=(False,), ratios=(1.0, 1.4),
                            influences=tuple(ref.INFLUENCE), loads=("velocity",), steps=8, amps=(1e-3, 1e-2, 0.05),
                            scales=(1.0, 1e-2), offsets=(0.0, 1.0)))
    if s["law"] == "pals" and mode == "vibration":
        mode = "path"
    return {"np": np_, "scenario": s, "mode": mode, "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def top_frequency(s):
    """Largest angular frequency of the linearised body."""
    b = ref.Body(s.x, s.vol, s.hor[s.blk], s.influence)
    v = gen.rng(1).normal(size=s.x.shape)
    K, mu = s.K[s.blk], s.mu[s.blk]
    lam = 0.0
    for _ in range(60):
        a = -b.assemble(ref.linear_lps(b, s.x + v, K, mu)[0]) / s.rho
        lam = np.linalg.norm(a)
        if lam == 0:
            return 0.0
        v = a / lam
    return np.sqrt(lam)


def evaluate(case):
    s = scen.build(case["scenario"])
    if s is None:
        return Discard("degenerate body")
    s.outputs = ["Displacement", "Velocity", "Force_Density", "Stored_Elastic_Energy_Density", "Stored_Elastic_Energy",
                 "Global_Stored_Elastic_Energy", "Global_Kinetic_Energy"]
    s.outputs = [o for o in s.outputs if not o.startswith("Global_Stored")]
    x, h, V = s.x, s.h, s.vol
    K = float(np.max(s.K + s.mu))
    eps = 1e-14 * (np.abs(x).max() + h) / h
    tag = ["mode " + case["mode"]] + scen.tags(s) + ["np=%d" % case["np"]]

    def energies(o):
        E = o.elem["Stored_Elastic_Energy"]
        W = o.elem["Stored_Elastic_Energy_Density"]
        if not np.all(np.abs(E - W * V) <= 1e-12 * np.abs(E).max() + 1e-300):
            raise runner.Broken("stored energy of a point is not its density times its volume")
        return E

    if case["mode"] == "vibration":
        if s.law == "pals":
            # indefinite energies make an unstable body
            return Discard("position-aware vibration")
        top = top_frequency(s)
        if top == 0:
            return Discard("no bonds")
        dt = float(0.15 / top)
        T = s.steps * dt
        s.loads = [("Initial Velocity", np.arange(s.n), k, "(%s)*%s" % (s.shape[k], gen.num(1 / T))) for k in range(3)]
        s.dt = dt
        errs = []
        for half in (1, 2):
            q = s.copy()
            q.dt = s.dt / half
            q.steps = s.steps * half
            q.tf = (q.steps + 0.5) * q.dt
            p, f = scen.render(q)
            o = runner.simulate(p, f, case["np"], points=s.n, steps=q.steps + 1)
            E = energies(o).sum(1) + o.glob["Global_Kinetic_Energy"]
            errs.append(np.max(np.abs(E - E[0])))
            scale = np.max(np.abs(E))
        if not np.all(np.isfinite(errs)):
            return Bad("energies are not finite")
        noise = 1e-9 * scale + (30 * eps) ** 2 * K * V.sum()
        if errs[0] > 0.1 * scale + noise:
            return Bad("total energy of a free elastic body drifts by %g of %g" % (errs[0], scale))
        if errs[1] > 0.5 * errs[0] + noise:
            return Bad("energy error does not shrink with the time step: %g with dt, %g with dt/2, energy %g" % (
                errs[0], errs[1], scale))
        return Ok(case_key(case) if scale > 0 and len(s.body.I) else None, tag)

    every = np.arange(s.n)
    r = gen.rng(case["seed"])
    if case["mode"] == "rigid":
        q, _ = np.linalg.qr(r.normal(size=(3, 3)))
        if np.linalg.det(q) < 0:
            q[:, 0] *= -1
        c, d = x.mean(0), r.uniform(-1, 1, 3) * h
        s.loads = []
        for k in range(3):
            e = "%s + %s*(x-(%s)) + %s*(y-(%s)) + %s*(z-(%s))" % (
                gen.num(d[k]), gen.num(q[k, 0] - (k == 0)), gen.num(c[0]), gen.num(q[k, 1] - (k == 1)), gen.num(c[1]),
                gen.num(q[k, 2] - (k == 2)), gen.num(c[2]))
            s.loads.append(("Initial Displacement", every, k, e))
        s.steps, s.tf = 0, 0.0
        p, f = scen.render(s)
        o = runner.simulate(p, f, case["np"], points=s.n, steps=1)
        E = energies(o)[0]
        # extensions are rounding errors of the positions
        lim = (1e-12 * (np.abs(x).max() + 5 * h + np.ptp(x)) / h) ** 2 * K * V * 1e4
        if s.law == "pals":
            lim = lim * 1e4
        if not np.all(np.abs(E) <= lim):
            i = int(np.nanargmax(np.abs(E) / lim))
            return Bad("stored energy of point %d is %r after a rigid motion (rounding %g)" % (i + 1, E[i], lim[i]))
        return Ok(case_key(case) if len(s.body.I) else None, tag)

    other = gen.motion_expressions({"kind": "waves", "amp": s.amp, "seed": case["seed"]}, x, h)
    N = 8
    s.steps = N
    T = N * s.dt
    s.tf = (N + 0.5) * s.dt
    # reached after the first step and moved along a straight line from then on
    s.loads = [("Prescribed Displacement", every, k, "(%s)*t*%s + (%s)*(t*t)*%s" % (
        s.shape[k], gen.num(1 / T), other[k], gen.num(1 / T ** 2))) for k in range(3)]
    p, f = scen.render(s)
    o = runner.simulate(p, f, case["np"], points=s.n, steps=N + 1)
    E = energies(o)
    # the influence states of the position-aware model may be negative in a lopsided neighborhood
    if s.law == "elastic" and E.min() < -1e-12 * E.max():
        return Bad("stored energy is negative: %r" % E.min())
    tot = E.sum(1)
    u = exo.vec(o, "Displacement")
    F = exo.vec(o, "Force_Density") * V[None, :, None]
    if np.any(u[0] != 0) or tot[0] > (1e-13 * (np.abs(x).max() + h) / h) ** 2 * K * V.sum() * (100 if s.law != "pals" else 1e6):
        return Bad("stored energy of the undeformed body is %r" % tot[0])
    # velocity along the path from the known polynomial u = a t + b t^2 through three outputs
    ts = np.arange(N + 1) / N
    a = 4 * u[N // 2] - u[N]
    b = u[N] - a
    if np.max(np.abs(u - a[None] * ts[:, None, None] - b[None] * ts[:, None, None] ** 2)) > 1e-9 * np.abs(u).max():
        return Bad("prescribed displacements are not met")
    P = np.array([(F[k] * (a + 2 * b * ts[k])).sum() for k in range(N + 1)])
    w = np.ones(N + 1)
    w[1:-1:2], w[2:-1:2] = 4, 2
    work = (w * P).sum() / (3 * N)
    coarse = np.array([1, 4, 2, 4, 1.0])
    work2 = (coarse * P[::2]).sum() / (3 * N / 2)
    size = (w * np.array([np.abs(F[k] * (a + 2 * b * ts[k])).sum() for k in range(N + 1)])).sum() / (3 * N)
    tol = abs(work - work2) + 1e-6 * (size + tot.max()) + 1e3 * eps * K * V.sum() * s.amp
    if abs(tot[-1] - tot[0] + work) > tol:
        return Bad("stored energy changed by %r, the internal forces did the work %r (tolerance %g)" % (
            tot[-1] - tot[0], work, tol))
    return Ok(case_key(case) if abs(work) > 100 * tol else None, tag)
