"""Reference models, written from the published formulas, in plain numpy.

A body is a set of points with bonds (I, J): point I[k] holds a bond to point J[k]. Bond arrays are ordered by I.
"""
import numpy as np

INFLUENCE = {
    "One": lambda z, h: np.ones_like(z),
    "Parabolic Decay": lambda z, h: np.where(z > h, 0.0, np.where(z / h < 0.5, 1.0, -4 * (z / h) ** 2 + 4 * (z / h))),
    "Gaussian": lambda z, h: np.exp(-z ** 2 / (0.4 * h) ** 2),
    "value = 1.0/(1.0 + zeta/horizon)": lambda z, h: 1.0 / (1.0 + z / h),
    "2.0 - zeta/horizon": lambda z, h: 2.0 - z / h,
    "value = exp(-zeta/horizon) + 0.1": lambda z, h: np.exp(-z / h) + 0.1,
}


class Body:
    """hor: horizon of each point; A: optional mask of allowed pairs."""

    def __init__(self, x, vol, hor, influence="One", A=None):
        self.x, self.vol = np.asarray(x, float), np.asarray(vol, float)
        n = self.n = len(x)
        self.hor = np.broadcast_to(np.asarray(hor, float), (n,)).copy()
        d = np.linalg.norm(self.x[:, None] - self.x[None], axis=-1)
        self.ambiguous = bool(np.any(np.abs(d - self.hor[:, None]) < 1e-9 * self.hor[:, None]))
        M = d <= self.hor[:, None]
        np.fill_diagonal(M, False)
        if A is not None:
            M &= A
        self.M = M
        self.I, self.J = np.nonzero(M)
        self.xi = self.x[self.J] - self.x[self.I]
        self.z = np.linalg.norm(self.xi, axis=1)
        self.w = INFLUENCE[influence](self.z, self.hor[self.I])
        self.VJ, self.VI = self.vol[self.J], self.vol[self.I]

    def sum_bonds(self, q):
        """Sum of a bond quantity over the bonds of each point."""
        q = np.asarray(q, float)
        out = np.zeros((self.n,) + q.shape[1:])
        np.add.at(out, self.I, q)
        return out

    def weighted_volume(self):
        return self.sum_bonds(self.w * self.z ** 2 * self.VJ)

    def bond(self, y):
        Y = y[self.J] - y[self.I]
        r = np.linalg.norm(Y, axis=1)
        return Y, r

    def assemble(self, tvec):
        """Force density from the force state of each bond."""
        f = np.zeros((self.n, 3))
        np.add.at(f, self.I, tvec * self.VJ[:, None])
        np.add.at(f, self.J, -tvec * self.VI[:, None])
        return f

    def magnitude(self, tvec):
        """Sum of absolute contributions: the natural scale of rounding."""
        f = np.zeros(self.n)
        a = np.linalg.norm(tvec, axis=1)
        np.add.at(f, self.I, a * self.VJ)
        np.add.at(f, self.J, a * self.VI)
        return f

    def dilatation(self, y, dmg=0.0, thermal=0.0):
        """thermal: thermal strain at each point."""
        Y, r = self.bond(y)
        e = r - self.z - np.broadcast_to(thermal, (self.n,))[self.I] * self.z
        m = self.weighted_volume()
        s = self.sum_bonds(3 * self.w * (1 - dmg) * self.z * e * self.VJ)
        return np.divide(s, m, out=np.zeros_like(s), where=m > 0)


def per_bond(b, p):
    return np.broadcast_to(np.asarray(p, float), (b.n,))[b.I]


def lps(b, y, K, mu, dmg=0.0, thermal=0.0):
    """Linear peridynamic solid; returns (bond force vectors, dilatation)."""
    m = b.weighted_volume()
    th = b.dilatation(y, dmg, thermal)
    Y, r = b.bond(y)
    e = r - b.z - np.broadcast_to(thermal, (b.n,))[b.I] * b.z
    K, mu = per_bond(b, K), per_bond(b, mu)
    mi, ti = m[b.I], th[b.I]
    ed = e - ti * b.z / 3
    t = (1 - dmg) * b.w * (3 * K * ti * b.z / mi + 15 * mu / mi * ed)
    return t[:, None] * Y / r[:, None], th


def lps_energy(b, y, K, mu, dmg=0.0, thermal=0.0):
    m = b.weighted_volume()
    th = b.dilatation(y, dmg, thermal)
    Y, r = b.bond(y)
    e = r - b.z - np.broadcast_to(thermal, (b.n,))[b.I] * b.z
    ed = e - th[b.I] * b.z / 3
    s = b.sum_bonds((1 - dmg) * b.w * ed ** 2 * b.VJ)
    K, mu = np.broadcast_to(K, (b.n,)), np.broadcast_to(mu, (b.n,))
    return 0.5 * K * th ** 2 + 7.5 * mu * np.divide(s, m, out=np.zeros_like(s), where=m > 0)


def linear_lps(b, y, K, mu, dmg=0.0, m=None):
    """The same law linearised about the reference configuration."""
    m = b.weighted_volume() if m is None else np.broadcast_to(m, (b.n,))
    u = y - b.x
    e = np.einsum("ij,ij->i", b.xi, u[b.J] - u[b.I]) / b.z
    th = b.sum_bonds(3 * b.w * (1 - dmg) * b.z * e * b.VJ)
    th = np.divide(th, m, out=np.zeros_like(th), where=m > 0)
    K, mu = per_bond(b, K), per_bond(b, mu)
    t = (1 - dmg) * b.w / m[b.I] * ((3 * K - 5 * mu) * th[b.I] * b.z + 15 * mu * e)
    return t[:, None] * b.xi / b.z[:, None], th


def bond_based(b, y, K, dmg=0.0, height=None):
    Y, r = b.bond(y)
    h = b.hor[b.I]
    c = 18 * per_bond(b, K) / (np.pi * h ** 4) if height is None else 12 * per_bond(b, K) / (np.pi * height * h ** 3)
    t = 0.5 * (1 - dmg) * c * (r - b.z) / b.z
    return t[:, None] * Y / r[:, None]


def _sym6(v):
    a, b, c = v[:, 0], v[:, 1], v[:, 2]
    return np.stack([a * a, b * b, c * c, 2 * a * b, 2 * a * c, 2 * b * c], 1)


def pals(b, y, K, mu, omega0, sigma0):
    """Position-aware linear solid (Mitchell, Silling, Littlewood 2015)."""
    h = b.hor[b.I]
    o0, s0 = INFLUENCE[omega0](b.z, h), INFLUENCE[sigma0](b.z, h)
    e6 = _sym6(b.xi)
    d6 = e6 / b.z[:, None]
    d6[:, :3] -= b.z[:, None] / 3
    dd = d6 ** 2
    om, sg = np.empty_like(b.z), np.empty_like(b.z)
    for i in range(b.n):
        k = b.I == i
        if not k.any():
            return None
        V = b.VJ[k]
        A = np.einsum("ni,nj,n->ij", e6[k], e6[k], V)
        B = np.einsum("ni,nj,n->ij", dd[k], dd[k], V)
        if np.linalg.cond(A / np.trace(A)) > 1e8 or np.linalg.cond(B / np.trace(B)) > 1e8:
            return None
        la = np.linalg.solve(A, np.array([1, 1, 1, 0, 0, 0]) - (o0[k] * V) @ e6[k])
        ta = np.linalg.solve(B, np.array([2 / 3] * 3 + [2.0] * 3) - (s0[k] * V) @ dd[k])
        om[k] = o0[k] + e6[k] @ la
        sg[k] = s0[k] + dd[k] @ ta
    Y, r = b.bond(y)
    e = r - b.z
    th = b.sum_bonds(om * b.z * e * b.VJ)
    # energy K theta^2/2 + mu sum sigma eps^2 V; its derivative gives the force state
    eps = e - th[b.I] * b.z / 3
    p = np.broadcast_to(K, (b.n,)) * th - 2 * np.broadcast_to(mu, (b.n,)) / 3 * b.sum_bonds(sg * b.z * eps * b.VJ)
    t = p[b.I] * om * b.z + 2 * per_bond(b, mu) * sg * eps
    return t[:, None] * Y / r[:, None], th


class Plastic:
    """Ordinary state-based plasticity: perfect or with isotropic hardening. Driven step by step with positions."""

    def __init__(self, b, K, mu, yield_stress, hardening=None, thickness=None, scf=None):
        self.b, self.K, self.mu, self.H = b, per_bond(b, K), mu, hardening
        self.m = b.weighted_volume()
        s = np.ones(b.n) if scf is None else scf
        self.alpha = s * 15 * mu / self.m
        h = b.hor
        psi = 25 * yield_stress ** 2 / (8 * np.pi * h ** 5)
        if thickness is not None:
            psi = 75 * yield_stress ** 2 / (8 * np.pi * thickness * h ** 4)
        self.psi = psi * s ** 2
        self.edp = np.zeros(len(b.z))
        self.lam = np.zeros(b.n)
        self.margin = 1.0

    def step(self, y, dmg=0.0):
        """Returns (bond force vectors, dilatation) and updates the history."""
        from scipy.optimize import brentq
        b = self.b
        th = b.dilatation(y, dmg)
        Y, r = b.bond(y)
        ed = r - b.z - th[b.I] * b.z / 3
        al = self.alpha[b.I]
        trial = al * (ed - self.edp)
        nrm = np.sqrt(b.sum_bonds(((1 - dmg) * trial) ** 2 * b.VJ))
        f = nrm ** 2 / 2
        dl = np.zeros(b.n)
        plastic = np.zeros(b.n, bool)
        for i in range(b.n):
            y0 = self.psi[i] + (self.H * self.lam[i] if self.H is not None else 0.0)
            if self.H is None:
                self.margin = min(self.margin, abs(f[i] - y0) / y0)
            if f[i] <= y0:
                continue
            plastic[i] = True
            if self.H is None:
                dl[i] = (nrm[i] / np.sqrt(2 * self.psi[i]) - 1) / self.alpha[i]
            else:
                g = lambda q: f[i] / (1 + self.alpha[i] * q) ** 2 - y0 - self.H * q
                hi = (nrm[i] / np.sqrt(2 * self.psi[i])) / self.alpha[i]
                dl[i] = brentq(g, 0.0, hi, xtol=1e-300, rtol=1e-15, maxiter=500)
        td = trial / (1 + al * dl[b.I])
        self.edp = self.edp + td * dl[b.I]
        self.lam = self.lam + dl
        self.plastic = plastic
        t = (1 - dmg) * (3 * self.K * th[b.I] * b.z / self.m[b.I] + td)
        return t[:, None] * Y / r[:, None], th


class Viscoelastic:
    """Standard linear solid on the deviatoric part, the deviatoric extension linear in time inside a step."""

    def __init__(self, b, K, mu, lam, tau, dt):
        self.b, self.K, self.mu, self.lam, self.tau, self.dt = b, K, mu, lam, tau, dt
        self.m = b.weighted_volume()
        self.back = np.zeros(len(b.z))
        self.ed = np.zeros(len(b.z))

    def step(self, y):
        b = self.b
        th = b.dilatation(y)
        Y, r = b.bond(y)
        ed = r - b.z - th[b.I] * b.z / 3
        # d(back)/dt = (ed - back)/tau with ed linear over the step, solved exactly
        s = self.dt / self.tau
        k = -np.expm1(-s)
        self.back = self.back * np.exp(-s) + self.ed * k + (ed - self.ed) * (1 - k / s)
        self.ed = ed
        al = 15 * per_bond(b, self.mu) / self.m[b.I]
        td = al * (ed - self.lam * self.back)
        t = 3 * per_bond(b, self.K) * th[b.I] * b.z / self.m[b.I] + td
        return t[:, None] * Y / r[:, None], th


def shear_correction(b):
    """4 g^2 m/15 over the largest squared norm of the deviatoric extension in the three pure shears."""
    g = 1e-6
    m = b.weighted_volume()
    best = np.zeros(b.n)
    for (p, q) in ((0, 1), (0, 2), (1, 2)):
        # linearised extension for y_p = x_p + g x_q, y_q = x_q + g x_p
        e = 2 * g * b.xi[:, p] * b.xi[:, q] / b.z
        th = b.sum_bonds(3 * b.w * b.z * e * b.VJ) / m
        ed = e - th[b.I] * b.z / 3
        best = np.maximum(best, b.sum_bonds(b.w * ed ** 2 * b.VJ))
    return 4 * g * g * m / 15 / best


def critical_time_step(b, K, rho):
    """Silling-Askari estimate, smallest over the points."""
    h = b.hor[b.I]
    s = b.sum_bonds(b.VJ * 18 * per_bond(b, K) / (np.pi * h ** 4) / b.z)
    rho = np.broadcast_to(rho, (b.n,))
    ok = s > 0
    return np.min(np.sqrt(2 * rho[ok] / s[ok])) if ok.any() else np.inf
