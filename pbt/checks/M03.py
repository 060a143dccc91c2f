"""Homogeneous deformation histories of the correspondence materials against the classical constitutive laws."""
import numpy as np
from hypothesis import strategies as st

from .. import exo, gen, ref, runner
from ..engine import Bad, Discard, Ok, case_key

RULE = ("A case drives a random body of one correspondence material through a random homogeneous deformation history (stretch, "
        "shear, rotation, cycles) and compares kinematics, stress, plastic strain and force of every point after every step "
        "with a numpy model of the law. It is non-trivial if the final stress or plastic strain is not zero.")
TECHNIQUE = "model-based property-based testing: generated homogeneous motions against a reference implementation of each law"
LEVEL_NOTE = ("Random bodies of 8 to 60 points, 3 to 12 steps, strains up to a few percent per step, rotations up to a turn, ten "
              "laws of the three correspondence families, first and second order gradients, flaws, temperatures, 1 to 3 processes.")
ASSUMPTIONS = ["the stress is compared step by step from the state the program reported after the step before",
               "the increment of equivalent plastic strain of the trial-stress laws lies between the projection on the averaged "
               "direction and the norm of the plastic strain increment",
               "the hypoelastic and viscoplastic laws estimate the plastic multiplier with the magnitude of the old stress"]
QUICK = dict(examples=3000, cap_s=22)
THOROUGH = dict(examples=60000, cap_s=2400)
LAWS = ["corr elastic", "corr elastic", "corr plastic", "corr hardening", "corr visco", "hypo elastic", "hypo plastic", "hypo hardening",
        "ba elastic", "ba plastic", "ba power", "ba saturation"]
INFLUENCES = ["One", "One", "Gaussian", "Parabolic Decay", "2.0 - zeta/horizon", "value = 1.0/(1.0 + zeta/horizon)"]
# hardening in one step of simple shear beyond a plastic state
FIXED = [{"np": 1, "cloud": {"kind": "lattice", "seed": 1, "scale": 1.0, "offset": 0.0, "dims": [3, 3, 3], "jitter": 0.0},
          "law": "corr hardening", "ratio": 1.5, "influence": "One", "order": 1, "two": False, "hourglass": 0.0,
          "motion": "shear", "cycle": "linear", "strain": 0.02, "turn": 0.0, "level": 0.2, "hard": 0.3, "steps": 6, "dt": 1e-4,
          "flaw": False, "thermal": False, "seed": 1}]


@st.composite
def cases(draw, tier):
    np_ = draw(st.sampled_from([1, 1, 1, 2, 3]))
    law = draw(st.sampled_from(LAWS))
    motion = draw(st.sampled_from(["general", "general", "shear", "stretch", "rotated", "rotated", "turned"]))
    return {
        "np": np_, "law": law,
        "cloud": draw(gen.clouds(min_points=8 * np_, max_points=27 if law.startswith("ba") else 48, kinds=("lattice", "lattice", "random"),
                                 min_side=2, max_side=4, jitters=(0.0, 0.1, 0.3), scales=(1.0, 1.0, 1e-3), offsets=(0.0, 0.0, 1.0))),
        "ratio": draw(st.sampled_from([1.5, 1.8, 2.3])), "influence": draw(st.sampled_from(INFLUENCES)),
        "order": draw(st.sampled_from([1, 1, 1, 2])), "two": draw(st.sampled_from([False, False, True])),
        "hourglass": draw(st.sampled_from([0.0, 0.02])),
        "motion": motion, "cycle": draw(st.sampled_from(["linear", "sine", "wave"])),
        "strain": draw(st.sampled_from([1e-3, 0.02, 0.1])), "turn": draw(st.sampled_from([0.3, 1.5, 6.0])),
        "level": draw(st.sampled_from([0.05, 0.2, 0.6, 5.0])), "hard": draw(st.sampled_from([0.0, 0.05, 0.3])),
        "steps": draw(st.integers(3, 12 if tier == "thorough" else 8)), "dt": draw(st.sampled_from([1e-6, 1e-3, 0.5])),
        "flaw": draw(st.sampled_from([False, False, True])), "thermal": draw(st.sampled_from([False, False, True])),
        "seed": draw(gen.seeds)}


def strategy(tier):
    return cases(tier)


def skew(k):
    return np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0.0]])


class Motion:
    """F(t) = (I + sin(p) K + (1 - cos(p)) K^2)(I + a(t) G) with p = turn*t/T, as numbers and as expressions."""

    def __init__(self, case, T):
        r = gen.rng(case["seed"], 1)
        self.T, self.kind, self.cycle = T, case["motion"], case["cycle"]
        G = r.uniform(-1, 1, (3, 3))
        if self.kind == "stretch":
            G = np.diag(np.diag(G))
        elif self.kind == "shear":
            i, j = r.permutation(3)[:2]
            G = np.zeros((3, 3))
            G[i, j] = 1.0
        elif self.kind == "turned":
            G = np.zeros((3, 3))
        self.G = np.round(G * case["strain"], 12)
        k = r.normal(size=3)
        if r.integers(0, 2):
            k = np.eye(3)[r.integers(0, 3)]
        self.K = np.round(skew(k / np.linalg.norm(k)), 12)
        # at most half a radian per step: a larger one is a strain increment beyond the range of the return algorithms
        self.turn = min(case["turn"], 0.5 * case["steps"]) if self.kind in ("rotated", "turned") else 0.0

    def a(self, t):
        s = t / self.T
        return {"linear": s, "sine": np.sin(3.0 * s), "wave": np.sin(7.0 * s)}[self.cycle]

    def F(self, t):
        p = self.turn * t / self.T
        R = np.eye(3) + np.sin(p) * self.K + (1 - np.cos(p)) * self.K @ self.K
        return R @ (np.eye(3) + self.a(t) * self.G)

    def expressions(self, c):
        s = "(t/%s)" % gen.num(self.T)
        a = {"linear": s, "sine": "sin(3.0*%s)" % s, "wave": "sin(7.0*%s)" % s}[self.cycle]
        p = "(%s*t/%s)" % (gen.num(self.turn), gen.num(self.T))
        K2 = self.K @ self.K
        out = []
        for i in range(3):
            terms = []
            for j in range(3):
                arm = "(%s - %s)" % ("xyz"[j], gen.num(c[j])) if c[j] >= 0 else "(%s + %s)" % ("xyz"[j], gen.num(-c[j]))
                parts = []
                for f, M in ((None, np.eye(3)), ("sin(%s)" % p, self.K), ("(1.0 - cos(%s))" % p, K2)):
                    if f is not None and self.turn == 0:
                        continue
                    const, grow = M[i, j] - (i == j if f is None else 0), (M @ self.G)[i, j]
                    q = []
                    if const:
                        q.append(gen.num(float(const)))
                    if grow:
                        q.append("%s*%s" % (gen.num(float(grow)), a))
                    if q:
                        q = "(" + " + ".join(q) + ")"
                        parts.append(q if f is None else f + "*" + q)
                if parts:
                    terms.append("(%s)*%s" % (" + ".join(parts), arm))
            out.append(" + ".join(terms) if terms else "0.0")
        return out


def material(case, K, mu, ys, rate, hor, r):
    law = case["law"]
    m = {"Density": 1000.0, "Bulk Modulus": K, "Shear Modulus": mu}
    fam, kind = law.split()
    if fam == "corr":
        m["Hourglass Coefficient"] = case["hourglass"]
    if fam == "hypo":
        m["Actual Horizon"] = float(hor)
    if fam in ("hypo", "ba") and case["order"] != 1:
        m["Gradient Order Of Accuracy"] = case["order"]
    names = {"corr": "Correspondence", "hypo": "Hypoelastic Correspondence", "ba": "Bond Associated Correspondence"}
    p = {}
    if kind == "elastic":
        m["Material Model"] = "Elastic " + names[fam]
    elif kind == "plastic":
        m["Material Model"] = "Elastic Plastic " + names[fam]
        m["Yield Stress"] = ys
    elif kind == "visco":
        m["Material Model"] = "Viscoplastic Needleman Correspondence"
        p = {"Strain Hardening Exponent": float(r.uniform(0.05, 0.3)), "Rate Hardening Exponent": float(r.choice([0.01, 0.1, 0.4])),
             "Reference Strain Rate": float(rate * r.choice([0.1, 1.0, 3.0])), "Reference Strain 0": float(ys / (3 * mu)),
             "Reference Strain 1": float(30 * case["strain"])}
        m.update(p)
        m["Yield Stress"] = ys
    elif law == "corr hardening":
        m["Material Model"] = "Isotropic Hardening Correspondence"
        p = {"Hardening Modulus": float(case["hard"] * mu)}
        m.update(p)
        m["Yield Stress"] = ys
    elif law == "hypo hardening":
        m["Material Model"] = "Isotropic Hardening Hypoelastic Correspondence"
        p = {"Hardening Characteristic Strain": float(case["strain"] * r.uniform(0.2, 2)), "Hardening Exponent": case["hard"] + 0.05}
        m.update(p)
        m["Yield Stress"] = ys
    else:
        m["Material Model"] = "Isotropic Hardening Bond Associated Correspondence"
        if kind == "power":
            p = {"Yield Stress": ys, "Hardening Characteristic Strain": float(case["strain"] * r.uniform(0.2, 2)),
                 "Hardening Exponent": case["hard"] + 0.05}
            m["Hardening Rule"] = "Power-law"
        else:
            p = {"Initial Yield Stress": ys, "Saturated Yield Stress": float(ys * r.uniform(1, 3)),
                 "Exponential Constant": float(r.uniform(0.2, 3) / case["strain"]), "Linear Constant": float(case["hard"] * mu)}
            m["Hardening Rule"] = "Saturation type exponential"
        m["Hardening Parameters"] = dict(p)
    flaw = None
    if case["flaw"] and law in ("corr hardening", "corr visco"):
        flaw = (r.uniform(0, 1, 3), float(r.uniform(0.5, 2)), float(r.uniform(0.1, 0.8)))
    return m, p, flaw


def kinematics(F0, F1, dt, R, V):
    """One step of the algorithm of Taylor and Flanagan (1987); arrays [point, 3, 3] of R and V."""
    L = (F1 - F0) / dt @ np.linalg.inv(F1)
    D, W = (L + L.T) / 2, (L - L.T) / 2
    DV = D @ V
    z = np.stack([DV[:, 2, 1] - DV[:, 1, 2], DV[:, 0, 2] - DV[:, 2, 0], DV[:, 1, 0] - DV[:, 0, 1]], -1)
    w = np.array([W[2, 1], W[0, 2], W[1, 0]])
    A = np.trace(V, axis1=1, axis2=2)[:, None, None] * np.eye(3) - V
    om = w + np.linalg.solve(A, z[:, :, None])[:, :, 0]
    O = np.zeros_like(V)
    O[:, 2, 1], O[:, 0, 2], O[:, 1, 0] = om[:, 0], om[:, 1], om[:, 2]
    O[:, 1, 2], O[:, 2, 0], O[:, 0, 1] = -om[:, 0], -om[:, 1], -om[:, 2]
    n = np.linalg.norm(om, axis=1)[:, None, None]
    small = n < 1e-15
    nn = np.where(small, 1.0, n)
    Q = np.eye(3) + np.where(small, 0, np.sin(dt * nn) / nn) * O + np.where(small, 0, (1 - np.cos(dt * nn)) / nn ** 2) * (O @ O)
    R1 = Q @ R
    V1 = V + dt * (L @ V - V @ O)
    return L, R1, V1, np.swapaxes(R1, 1, 2) @ D @ R1


def dev(s):
    return s - np.trace(s, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)


def norm(s):
    return np.sqrt((s * s).sum((1, 2)))


def returned(kind, law, s0, trial, de, e0, y, p, mu, dt):
    """Radius of the yield surface (in von Mises stress) the law returns to at each point, or None for elastic points.

    Also the radius of the consistent linear hardening law where the program's differs (see the known finding).
    """
    t = dev(trial)
    tn = norm(t)
    vm = np.sqrt(1.5) * tn
    s0n = norm(dev(s0))
    safe = np.maximum(tn, 1e-300)
    proj = (t * de).sum((1, 2)) / safe
    n = len(vm)
    if kind == "plastic":
        return np.where(vm > y, y, np.inf), None, y * np.ones(n)
    if law == "corr hardening":
        H = p["Hardening Modulus"]
        lam = (6 * proj * mu + 3 * s0n - np.sqrt(6) * y) / (2 * (H + 3 * mu))
        Y = y + H * (e0 + np.sqrt(2 / 3) * lam)
        out = np.where((vm >= y) & (vm > Y), Y, np.inf)
        exact = (vm - (y + H * e0)) / (3 * mu + H)
        true = np.where(exact > 0, y + H * (e0 + exact), np.inf)
        return out, true, np.minimum(Y, y + H * e0)
    if law == "hypo hardening":
        c, m = p["Hardening Characteristic Strain"], p["Hardening Exponent"]
        Yf = lambda e: y * (1 + np.maximum(e, -0.999 * c) / c) ** m
        Hf = lambda e: y * m / c * (1 + np.maximum(e, -0.999 * c) / c) ** (m - 1)
        Y0 = Yf(e0)
        lam = (6 * proj * mu - np.sqrt(6) * Y0 + 3 * s0n) / (2 * (Hf(e0) + 3 * mu))
        H = 0.5 * (Hf(e0) + Hf(e0 + np.sqrt(2 / 3) * lam))
        lam = (6 * proj * mu - np.sqrt(6) * Y0 + 3 * s0n) / (2 * (H + 3 * mu))
        Y = Yf(e0 + np.sqrt(2 / 3) * lam)
        return np.where((vm >= Y0) & (vm > Y), Y, np.inf), None, Y0
    if kind == "visco":
        def yf(lam, e):
            return (y * (1 + e / p["Reference Strain 0"]) ** p["Strain Hardening Exponent"] / (1 + (e / p["Reference Strain 1"]) ** 2)
                    * (np.sqrt(2 / 3) * lam / dt / p["Reference Strain Rate"]) ** p["Rate Hardening Exponent"])
        lo, hi = np.zeros(n), np.ones(n)
        for _ in range(200):
            c = (lo + hi) / 2
            f = proj - c - (np.sqrt(2 / 3) * yf(c, e0 + c) - s0n) / (2 * mu)
            lo, hi = np.where(f > 0, c, lo), np.where(f > 0, hi, c)
        c = (lo + hi) / 2
        Y = yf(c, e0 + np.sqrt(2 / 3) * c)
        return np.where((vm >= y) & (vm > Y), Y, np.inf), None, y * np.ones(n)
    # Newton's method on the consistency condition
    if kind == "power":
        c, m = p["Hardening Characteristic Strain"], p["Hardening Exponent"]
        Yf = lambda e: y * (1 + e / c) ** m
    else:
        a, b, ex, li = (p[k] for k in ("Initial Yield Stress", "Saturated Yield Stress", "Exponential Constant", "Linear Constant"))
        Yf = lambda e: a + (b - a) * (1 - np.exp(-ex * e)) + li * e
    lo, hi = np.zeros(n), np.maximum(vm / (3 * mu), 0)
    for _ in range(200):
        mid = (lo + hi) / 2
        f = vm - 3 * mu * mid - Yf(e0 + mid)
        lo, hi = np.where(f > 0, mid, lo), np.where(f > 0, hi, mid)
    inc = (lo + hi) / 2
    return np.where(vm > Yf(e0), vm - 3 * mu * inc, np.inf), None, Yf(e0)


def tensor(o, base, t):
    return np.stack([np.stack([o.elem[base + a + b][t] for b in "XYZ"], -1) for a in "XYZ"], -2)


def powers(order):
    out = []
    for q in range(1, order + 1):
        for a in range(q, -1, -1):
            for b in range(q - a, -1, -1):
                out.append((a, b, q - a - b))
    return out


def gradient_weights(b, Y, w, VJ, order):
    """Weights of the gradient operator of each bond and the smallest singular value of the moment matrices, relative to horizon^3."""
    s = Y / b.hor[b.I][:, None]
    Q = np.stack([s[:, 0] ** a * s[:, 1] ** c * s[:, 2] ** d for a, c, d in powers(order)], -1)
    M = b.sum_bonds((w * VJ)[:, None, None] * Q[:, :, None] * Q[:, None, :])
    sv = np.linalg.svd(M, compute_uv=False)[:, -1] / b.hor ** 3
    if not np.all(sv > 1e-12):
        return None, 0.0
    phi = np.einsum("kij,kj->ki", np.linalg.inv(M)[b.I][:, :3], Q) * (w / b.hor[b.I])[:, None]
    return phi, sv.min()


def evaluate(case):
    x, h = gen.points(case["cloud"])
    vol = gen.volumes(case["cloud"], len(x), h)
    n = len(x)
    hor = case["ratio"] * h
    law = case["law"]
    fam, kind = law.split()
    b = ref.Body(x, vol, hor, case["influence"])
    if b.ambiguous:
        return Discard("a neighbour at the horizon")
    if np.bincount(b.I, minlength=n).min() < 4:
        return Discard("too few neighbours")
    keep = b.w > 0
    phi0, sv = gradient_weights(b, b.xi, b.w, b.VJ, case["order"] if fam != "corr" else 1)
    # the program drops singular values below 1e-6 of horizon^3
    if sv < 1e-3:
        return Discard("a flat neighbourhood")
    r = gen.rng(case["seed"], 2)
    K = float(np.round(r.uniform(1, 3), 3) * 1e9)
    mu = float(np.round(r.uniform(0.3, 1.5), 3) * 1e9)
    N, dt = case["steps"], case["dt"]
    T = N * dt
    mo = Motion(case, T)
    ys = float(case["level"] * 2 * mu * case["strain"])
    m, p, flaw = material(case, K, mu, ys, case["strain"] / T, hor, r)
    if flaw:
        at = x.min(0) + flaw[0] * np.ptp(x, axis=0)
        m.update({"Enable Flaw": True, "Flaw Location X": float(at[0]), "Flaw Location Y": float(at[1]),
                  "Flaw Location Z": float(at[2]), "Flaw Size": flaw[1] * h, "Flaw Magnitude": flaw[2]})
        y = ys * (1 - flaw[2] * np.exp(-((x - at) ** 2).sum(1) / (flaw[1] * h) ** 2))
    else:
        y = ys * np.ones(n)
    thermal = case["thermal"] and law == "corr elastic"
    alpha = float(case["strain"] / 50) if thermal else 0.0
    if thermal:
        m["Thermal Expansion Coefficient"] = alpha
    blk = gen.assign_blocks(x, 2, "slab", case["seed"]) if case["two"] else np.zeros(n, int)
    c = np.round(x.mean(0), 12) if case["seed"] % 2 else np.zeros(3)
    e = mo.expressions(c)
    bc = dict(gen.all_points(n))
    for k in range(3):
        bc["Motion " + "XYZ"[k]] = {"Type": "Prescribed Displacement", "Node Set": "Node Set All",
                                    "Coordinate": "xyz"[k], "Value": e[k]}
    if thermal:
        rate = 40.0 / T
        bc["Heat"] = {"Type": "Prescribed Temperature", "Node Set": "Node Set All",
                      "Value": "t*%s*(1.0 + 0.5*x/%s)" % (gen.num(rate), gen.num(h))}
        temp = lambda t: t * rate * (1 + 0.5 * x[:, 0] / h)
    outputs = ["Displacement", "Force_Density", "Left_Stretch_Tensor", "Rotation_Tensor", "Unrotated_Cauchy_Stress", "Cauchy_Stress"]
    if fam == "ba":
        outputs += ["Deformation_Gradient_" + k for k in "XYZ"]
    elif fam == "corr":
        outputs += ["Deformation_Gradient"]
    if fam != "corr":
        outputs += ["Green_Lagrange_Strain", "Von_Mises_Stress"]
    plastic = kind != "elastic"
    if plastic:
        outputs += ["Von_Mises_Stress", "Equivalent_Plastic_Strain"] + (["Stress_Triaxiality"] if fam != "corr" else [])
    params, files = gen.text_deck(
        x, vol, blk + 1, {"B%d" % k: {"Block Names": "block_%d" % (k + 1), "Material": "Mat", "Horizon": float(hor)}
                          for k in range(blk.max() + 1)},
        {"Mat": m}, sorted(set(outputs)), solver={"Verbose": False, "Initial Time": 0.0, "Final Time": float((N + 0.25) * dt),
                                                  "Verlet": {"Fixed dt": float(dt)}},
        bc=bc, disc={"Influence Function": case["influence"]} if case["influence"] != "One" else None)
    try:
        o = runner.simulate(params, files, case["np"], points=n, steps=N + 1)
    except runner.Broken as err:
        if "Too many iterations in the plastic radial return" in err.out:
            return Discard("the radial return of the program did not converge")
        raise
    tag = ["law " + law, "motion " + case["motion"], "np=%d" % case["np"], "order %d" % case["order"]]
    size = np.abs(x - c).max() + np.abs(x).max()
    eps = 2e-13 * (1 + size / h) / max(sv, 1e-3)        # rounding of a gradient
    R = V = np.broadcast_to(np.eye(3), (n, 3, 3))
    s0, e0 = np.zeros((n, 3, 3)), np.zeros(n)
    J = np.ones(n)
    Fh = np.broadcast_to(np.eye(3), (n, 3, 3))
    E = np.zeros((n, 3, 3))
    finding = None
    top = 0.0
    yielded = False

    def off(name, got, want, tol, t):
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            w = tuple(np.argwhere(bad)[0])
            return Bad("%s after step %d at point %d: %r, the %s law gives %r (largest %g, %d values differ)" % (
                name, t, w[0] + 1, float(got[w]), law, float(np.broadcast_to(want, got.shape)[w]), np.abs(got).max(), int(bad.sum())))
        return None

    for t in range(1, N + 1):
        F0, F1 = mo.F((t - 1) * dt), mo.F(t * dt)
        u = exo.vec(o, "Displacement", t)
        msg = off("Displacement", u, (x - c) @ (F1 - np.eye(3)).T, 1e-12 * N * (size + 1e-3 * h), t)
        if msg:
            return msg
        L, R1, V1, d = kinematics(F0, F1, dt, R, V)
        tolF = eps * N * np.abs(F1).max()
        if fam == "ba":
            F = np.stack([np.stack([o.elem["Deformation_Gradient_" + a + b_][t] for b_ in "XYZ"], -1) for a in "XYZ"], -2)
            wantF = np.broadcast_to(F1, F.shape)
        elif fam == "corr":
            F = tensor(o, "Deformation_Gradient", t)
            wantF = np.broadcast_to(F1, F.shape)
        else:
            # the integrated deformation gradient of this family is not available for output, its strain is
            F = wantF = Fh + dt * L @ Fh
        bad = (off("Deformation_Gradient", F, wantF, tolF, t) or
               off("Rotation_Tensor", tensor(o, "Rotation_Tensor", t), R1, tolF, t) or
               off("Left_Stretch_Tensor", tensor(o, "Left_Stretch_Tensor", t), V1, tolF * np.abs(V1).max(), t))
        if bad:
            return bad
        Fh = F
        if fam == "hypo":
            bad = off("Green_Lagrange_Strain", tensor(o, "Green_Lagrange_Strain", t), (np.swapaxes(F, 1, 2) @ F - np.eye(3)) / 2, tolF, t)
        elif fam == "ba":
            Fd = (F1 - F0) / dt
            E = E + dt * (Fd.T @ F1 + F1.T @ Fd) / 2
            bad = off("Green_Lagrange_Strain", tensor(o, "Green_Lagrange_Strain", t), E, 4 * tolF * np.abs(F1).max(), t)
        if bad:
            return bad
        inc = dt * d
        if thermal:
            inc = inc - (alpha * (temp(t * dt) - temp((t - 1) * dt)))[:, None, None] * np.eye(3)
        de = dev(inc)
        trial = s0 + 2 * mu * de + K * np.trace(inc, axis1=1, axis2=2)[:, None, None] * np.eye(3)
        got = tensor(o, "Unrotated_Cauchy_Stress", t)
        scale = max(np.abs(got).max(), np.abs(trial).max(), np.abs(s0).max())
        tol = 1e-9 * scale + 4 * (K + 2 * mu) * tolF
        if plastic:
            rad, true, edge = returned(kind, law, s0, trial, de, e0, y, p, mu, dt)
            vmt = np.sqrt(1.5) * norm(dev(trial))
            # a stress that just reaches the surface may count as elastic
            near = np.abs(vmt - edge) <= 10 * tol + 1e-9 * edge
            hit = np.isfinite(rad)
            yielded |= bool(hit.any())
            f = np.where(hit, np.where(hit, rad, 1.0) / np.maximum(vmt, 1e-300), 1.0)
            want = trial - (1 - f)[:, None, None] * dev(trial)
            tolp = tol + (1e-5 * scale if kind == "visco" else 0.0)
            tolp = tolp + np.where(near, 1e-6 * scale + 100 * tol, 0.0)[:, None, None]
        else:
            want, tolp = trial, tol
        bad = off("Unrotated_Cauchy_Stress", got, want, tolp, t)
        if plastic and true is not None:
            h2 = np.isfinite(true)
            f2 = np.where(h2, np.where(h2, true, 1.0) / np.maximum(vmt, 1e-300), 1.0)
            exact = off("Unrotated_Cauchy_Stress", got, trial - (1 - f2)[:, None, None] * dev(trial), tolp, t)
            if bad is None and exact is not None:
                finding = exact
            elif exact is None:
                bad = None
        if bad:
            return bad
        R1 = tensor(o, "Rotation_Tensor", t)
        cauchy = tensor(o, "Cauchy_Stress", t)
        bad = off("Cauchy_Stress", cauchy, R1 @ got @ np.swapaxes(R1, 1, 2), 1e-12 * scale, t)
        vm = np.sqrt(1.5) * norm(dev(got))
        if not bad and (plastic or fam != "corr"):
            reported = o.elem["Von_Mises_Stress"][t]
            bad = off("Von_Mises_Stress", reported, vm, 1e-9 * scale + tol, t)
        if not bad and plastic and fam != "corr":
            ok = vm > 1e-3 * scale
            want3 = np.trace(got, axis1=1, axis2=2) / (3 * np.where(ok, vm, 1.0))
            tri = o.elem["Stress_Triaxiality"][t]
            bad = off("Stress_Triaxiality", np.where(ok, tri, 0.0), np.where(ok, want3, 0.0), 1e-6 * (1 + np.abs(want3).max()) + tol / scale * 1e6, t)
        if not bad and plastic:
            e1 = o.elem["Equivalent_Plastic_Strain"][t]
            dp = de - dev(got - s0) / (2 * mu)
            up = np.sqrt(2 / 3) * norm(dp)
            floor = 4 * tol / mu + 1e-9 * np.abs(e1).max()
            low = up - floor
            if kind not in ("power", "saturation"):
                n0, n1 = dev(s0), dev(got)
                a0 = n0 / np.maximum(norm(n0), 1e-300)[:, None, None]
                a1 = n1 / np.maximum(norm(dev(trial)), 1e-300)[:, None, None]
                low = np.where(norm(n0) > 1e-6 * scale, np.sqrt(2 / 3) * (dp * (a0 + a1) / 2).sum((1, 2)),
                               np.sqrt(2 / 3) * (dp * a1 / 2).sum((1, 2)))
                low = np.minimum(low, up)
            w = ~((e1 - e0 >= np.maximum(low, 0) - floor) & (e1 - e0 <= up + floor) & (e1 >= e0))
            if w.any():
                k = int(np.argmax(w))
                bad = Bad("Equivalent_Plastic_Strain after step %d at point %d grew by %r, the plastic strain increment allows %r to %r" % (
                    t, k + 1, float(e1[k] - e0[k]), float(low[k]), float(up[k])))
            e0 = e1
        if bad:
            return bad
        # the force that follows from the stress
        if fam == "corr":
            P = np.linalg.det(F)[:, None, None] * cauchy @ np.swapaxes(np.linalg.inv(F), 1, 2)
            S = np.linalg.inv(b.sum_bonds((b.w * b.VJ)[:, None, None] * b.xi[:, :, None] * b.xi[:, None, :]))
            T_ = b.w[:, None] * np.einsum("kij,kj->ki", (P @ S)[b.I], b.xi)
            f, mag = b.assemble(T_), b.magnitude(T_)
        elif fam == "ba":
            P = np.linalg.det(F1) * cauchy @ np.linalg.inv(F1).T
            w0 = b.sum_bonds(b.w * b.VJ)
            nn = b.xi[:, :, None] * b.xi[:, None, :] / (b.z ** 2)[:, None, None]
            PI = P[b.I]
            S = b.sum_bonds((b.w * (0.5 / w0[b.I] + 0.5 / w0[b.J]) * b.VJ)[:, None, None] * (PI @ (np.eye(3) - nn)))
            T_ = (b.w / w0[b.I] / b.z ** 2)[:, None] * np.einsum("kij,kj->ki", PI, b.xi) + np.einsum("kij,kj->ki", S[b.I], phi0)
            T_ = T_ * keep[:, None]
            f, mag = b.assemble(T_), b.magnitude(T_)
        else:
            Y, rl = b.bond(x + u)
            w = ref.INFLUENCE[case["influence"]](rl, b.hor[b.I])
            VJ = (J * vol)[b.J]
            phi, sv1 = gradient_weights(b, Y, w, VJ, case["order"])
            if sv1 < 1e-4 or np.any(w < 0):
                return Discard("a flat neighbourhood after deformation")
            w0 = b.sum_bonds(w * VJ)
            nn = Y[:, :, None] * Y[:, None, :] / (rl ** 2)[:, None, None]
            PI = cauchy[b.I]
            S = b.sum_bonds((w * (0.5 / w0[b.I] + 0.5 / w0[b.J]) * VJ)[:, None, None] * (PI @ (np.eye(3) - nn)))
            T_ = (w / w0[b.I] / rl ** 2)[:, None] * np.einsum("kij,kj->ki", PI, Y) + np.einsum("kij,kj->ki", S[b.I], phi)
            T_ = T_ * (w > 0)[:, None]
            f, mag = np.zeros((n, 3)), np.zeros(n)
            np.add.at(f, b.I, (J[b.I] * VJ)[:, None] * T_)
            np.add.at(f, b.J, -(J[b.J] * (J * vol)[b.I])[:, None] * T_)
            np.add.at(mag, b.I, J[b.I] * VJ * np.linalg.norm(T_, axis=1))
            np.add.at(mag, b.J, J[b.J] * (J * vol)[b.I] * np.linalg.norm(T_, axis=1))
            J = J * (1 + dt * np.trace(L))
        got_f = exo.vec(o, "Force_Density", t)
        # the stress of each bond has its own rounding and, at the edge of yield, its own decision
        spread = (8 * tol + (np.where(near, 100 * tol + 1e-6 * scale, 0.0).max() + (1e-5 * scale if kind == "visco" else 0.0) if plastic else 0.0)) / max(scale, 1e-300)
        bad = off("Force_Density", got_f, f, (spread + 1e-9 * (1 + 1e-3 / sv)) * mag.max() + 1e-11 * K / h * (1 + size / h) / sv, t)
        if bad:
            return bad
        R, V, s0 = R1, tensor(o, "Left_Stretch_Tensor", t), got
        top = max(top, scale)
    if finding is not None:
        return Bad(finding.message, "hardening")
    return Ok(case_key(case) if top > 0 else None, tag + (["yielded"] if yielded else []) + (["flaw"] if flaw else []) + (["heated"] if thermal else []))
