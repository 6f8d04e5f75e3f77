"""Independent reference model of a layered slab on a weak layer.

Written from the mechanics (README / white paper conventions: x along the
slope, z downward, inclination counter-clockwise positive), not from the code:
no eigen-decomposition, no free-segment polynomials, no particular integrals.
The state s = (u, w, psi, N, M, V) obeys a linear first-order ODE; its exact
element transfer relations (matrix exponentials) are chained into one linear
system with the boundary and transition conditions of the structure.
"""
from __future__ import annotations

import numpy as np
from scipy.linalg import expm, solve_banded
from scipy.optimize import brentq

IU, IW, IPSI, IN_, IM, IV = range(6)


class Section:
    """Slab cross-section, weak layer and load data of one configuration."""

    def __init__(self, rho, th, E, nu, t, Ewl, nuwl, g=9810.0, p=0.0, k=5 / 6,
                 kn=None, kt=None):
        rho, th, E = (np.asarray(v, dtype=float) for v in (rho, th, E))
        nu = np.broadcast_to(np.asarray(nu, dtype=float), rho.shape)
        self.rho, self.th, self.E, self.nu = rho, th, E, nu
        self.G = E / (2 * (1 + nu))
        self.h = float(np.sum(th))
        bot = np.cumsum(th) - self.h / 2
        top = bot - th
        mid = (top + bot) / 2
        self.top, self.bot, self.mid = top, bot, mid
        Q = E / (1 - nu**2)
        self.A = float(np.sum(Q * th))
        self.B = float(np.sum(Q * th * mid))
        self.D = float(np.sum(Q * (th**3 / 12 + th * mid**2)))
        self.kA55 = float(k * np.sum(self.G * th))
        self.zs = float(np.sum(rho * th * mid) / np.sum(rho * th))
        self.mass = float(np.sum(rho * th)) * 1e-12      # t/mm^2
        self.t = float(t)
        self.kn = Ewl / (1 - nuwl**2) / t if kn is None else kn
        self.kt = Ewl / (2 * (1 + nuwl)) / t if kt is None else kt
        self.g, self.p = g, p

    # ------------------------------------------------------------------ loads
    def q(self, phi):
        r = np.deg2rad(phi)
        return self.mass * self.g * np.cos(r), -self.mass * self.g * np.sin(r)

    def ps(self, phi):
        r = np.deg2rad(phi)
        return self.p * np.cos(r), -self.p * np.sin(r)

    # -------------------------------------------------------------------- ODE
    def ode(self, phi, bed, kfac=1.0):
        """Return F, f of s' = F s + f."""
        A, B, D, kA, h, t = self.A, self.B, self.D, self.kA55, self.h, self.t
        kn = self.kn * kfac if bed else 0.0
        kt = self.kt * kfac if bed else 0.0
        qn, qt = self.q(phi)
        pn, pt = self.ps(phi)
        det = A * D - B * B
        F = np.zeros((6, 6))
        f = np.zeros(6)
        # constitutive law of the slab
        F[IU, IN_], F[IU, IM] = D / det, -B / det
        F[IPSI, IN_], F[IPSI, IM] = -B / det, A / det
        F[IW, IV], F[IW, IPSI] = 1 / kA, -1.0
        # weak-layer shear stress tau = kt (u(h/2) - t/2 w')
        tau = np.zeros(6)
        tau[IU] = kt
        tau[IPSI] = kt * (h / 2 + t / 2)
        tau[IV] = -kt * t / (2 * kA)
        # equilibrium
        F[IN_] += tau
        f[IN_] = -qt - pt
        F[IV, IW] = kn
        f[IV] = -qn - pn
        F[IM] += (h + t) / 2 * tau
        F[IM, IV] += 1.0
        f[IM] = -self.zs * qt + h / 2 * pt
        return F, f

    def uniform(self, phi):
        """State of the infinitely long, uncracked, uniformly loaded slab."""
        F, f = self.ode(phi, True)
        return np.linalg.solve(F, -f)

    def lam(self, kfac=1.0):
        F, _ = self.ode(0, True, kfac)
        return float(np.max(np.abs(np.linalg.eigvals(F))))

    # ---------------------------------------------------------- weak layer law
    def tau(self, s):
        wp = s[IV] / self.kA55 - s[IPSI]
        return self.kt * (s[IU] + self.h / 2 * s[IPSI] - self.t / 2 * wp)

    def sig(self, s):
        return -self.kn * s[IW]

    def wedge(self, phi):
        """Mass (t/mm) and centroid of the wedge between normal and vertical
        face, by exact integration of each layer's strip (0, (h/2-z) tan phi)."""
        T = np.tan(np.deg2rad(phi))
        a, b, H = self.top, self.bot, self.h / 2
        I0 = H * (b - a) - (b**2 - a**2) / 2
        I1 = H * (b**2 - a**2) / 2 - (b**3 - a**3) / 3
        I2 = ((H - a) ** 3 - (H - b) ** 3) / 3
        r = self.rho * 1e-12
        m = T * np.sum(r * I0)
        if m == 0:
            return 0.0, 0.0, 0.0
        return float(m), float(T**2 / 2 * np.sum(r * I2) / m), float(T * np.sum(r * I1) / m)


class Solution:
    """Reference solution of a chain of segments."""

    def __init__(self, sec, phi, li, ki, F, bcl, bcr, kfac=1.0, step=1.0):
        """F: list of (Fn, Ft) at interior joints; bcl/bcr: (3x6 matrix, rhs)."""
        self.sec, self.phi, self.li, self.ki = sec, phi, list(li), list(ki)
        lam = sec.lam(kfac)
        scale = self._scale(sec)
        elems, self.nodes = [], []
        off = 0
        for l, k in zip(self.li, self.ki):
            n = max(1, int(np.ceil(l * lam / step)))
            dx = l / n
            if l > 0:
                Fm, f = sec.ode(phi, k, kfac)
                aug = np.zeros((7, 7))
                aug[:6, :6] = Fm * scale[None, :] / scale[:, None] * dx
                aug[:6, 6] = f / scale * dx
                T = expm(aug)
                P, c = T[:6, :6], T[:6, 6]
            else:
                P, c = np.eye(6), np.zeros(6)
            elems.append((n, dx, P, c))
            self.nodes.append((off, n, dx))
            off += n + 1
        nn = off
        rows, rhs = [], []

        def add(r, cols_vals, b):
            rows.append((r, cols_vals))
            rhs.append(b)

        size = 6 * nn
        ab = np.zeros((2 * 11 + 1, size))
        b = np.zeros(size)

        def put(i, j, v):
            ab[11 + i - j, j] += v

        row = 0
        Ml, bl = bcl
        for r in range(3):
            v = Ml[r] * scale
            nrm = np.max(np.abs(v))
            for j in range(6):
                if v[j]:
                    put(row, j, v[j] / nrm)
            b[row] = bl[r] / nrm
            row += 1
        for s, (n, dx, P, c) in enumerate(elems):
            o = self.nodes[s][0]
            # n identical elements: s[e+1] - P s[e] = c
            e = np.arange(n)
            for r in range(6):
                ri = row + 6 * e + r
                for j in range(6):
                    if P[r, j]:
                        cj = 6 * (o + e) + j
                        ab[11 + ri - cj, cj] += -P[r, j]
                cj = 6 * (o + e + 1) + r
                ab[11 + ri - cj, cj] += 1.0
                b[ri] = c[r]
            row += 6 * n
            if s < len(elems) - 1:
                Fn, Ft = F[s]
                jump = np.zeros(6)
                jump[IN_], jump[IM], jump[IV] = -Ft, Ft * sec.h / 2, -Fn
                for r in range(6):
                    put(row, 6 * (o + n) + r, -1.0)
                    put(row, 6 * (o + n + 1) + r, 1.0)
                    b[row] = jump[r] / scale[r]
                    row += 1
        Mr, br = bcr
        for r in range(3):
            v = Mr[r] * scale
            nrm = np.max(np.abs(v))
            for j in range(6):
                if v[j]:
                    put(row, 6 * (nn - 1) + j, v[j] / nrm)
            b[row] = br[r] / nrm
            row += 1
        assert row == size
        x = solve_banded((11, 11), ab, b)
        self.s = x.reshape(nn, 6).T * scale[:, None]
        self.elems, self.scale = elems, scale

    @staticmethod
    def _scale(sec):
        ell = 300.0
        d = 1e-1
        return np.array([d, d, d / ell, sec.kA55 * d / ell, sec.kA55 * d,
                         sec.kA55 * d / ell])

    def seg_nodes(self, i):
        """x (local) and states (6 x n+1) at the nodes of segment i."""
        o, n, dx = self.nodes[i]
        return np.arange(n + 1) * dx, self.s[:, o:o + n + 1]

    def at(self, i, x, kfac=1.0):
        """State at local coordinate x of segment i."""
        o, n, dx = self.nodes[i]
        if dx == 0:
            return self.s[:, o]
        e = min(n - 1, max(0, int(x / dx)))
        r = x - e * dx
        Fm, f = self.sec.ode(self.phi, self.ki[i], kfac)
        sc = self.scale
        aug = np.zeros((7, 7))
        aug[:6, :6] = Fm * sc[None, :] / sc[:, None] * r
        aug[:6, 6] = f / sc * r
        T = expm(aug)
        return (T[:6, :6] @ (self.s[:, o + e] / sc) + T[:6, 6]) * sc

    def ends(self, i):
        o, n, _ = self.nodes[i]
        return self.s[:, o], self.s[:, o + n]


def rowsel(*idx):
    M = np.zeros((3, 6))
    for r, i in enumerate(idx):
        M[r, i] = 1.0
    return M


FREE = rowsel(IN_, IM, IV)
DISP = rowsel(IU, IW, IPSI)


def unit_stiffness(sec, L, kfac, dof):
    """Force (moment) needed at the left end of a free-ended bedded beam of
    length L for a unit deflection (rotation) there; slab weight plays no role."""
    z = Section(sec.rho, sec.th, sec.E, sec.nu, sec.t, 1, 0, g=0.0, p=0.0,
                kn=sec.kn, kt=sec.kt)
    z.kA55 = sec.kA55
    rhs = np.array([0.0, 1.0, 0.0]) if dof == 'rot' else np.array([0.0, 0.0, 1.0])
    sol = Solution(z, 0.0, [L], [True], [], (FREE, rhs), (FREE, np.zeros(3)), kfac=kfac)
    s = sol.s[:, 0]
    return abs(1 / (s[IPSI] if dof == 'rot' else s[IW]))


def skier_forces(sec, mi, phi, lski=1000.0):
    r = np.deg2rad(phi)
    out = []
    for m in mi:
        F = 1e-3 * m * sec.g / lski
        out.append((F * np.cos(r), -F * np.sin(r)))
    return out


def solve_structure(sec, system, phi, li, mi, ki, lski=1000.0, mode='A', tc=None,
                    rest=None, ratio=1000.0):
    """Reference solution of a WEAC structure.

    rest: length (mm) of slab resting on the collapsed weak layer (mode C).
    """
    F = skier_forces(sec, mi, phi, lski)
    zero = np.zeros(3)
    bl, br = (FREE, zero), (FREE, zero)
    if system in ('skier', 'skiers'):
        s0 = sec.uniform(phi)
        d = np.array([s0[IU], s0[IW], s0[IPSI]])
        bl = br = (DISP, d)
    elif system in ('vpst-', '-vpst'):
        m, xs, zs = sec.wedge(phi)
        r = np.deg2rad(phi)
        fx, fz = -sec.g * m * np.sin(r), sec.g * m * np.cos(r)
        f = np.array([fx, fx * zs - fz * xs, fz])
        bl = br = (FREE, f)
    elif system in ('pst-', '-pst'):
        if mode in ('B', 'C'):
            M = rowsel(IN_, IM, IW)
            rhs = np.array([0.0, 0.0, tc])
            right = system == 'pst-'
            if mode == 'C':
                kR = unit_stiffness(sec, rest, ratio, 'rot')
                M[1, IPSI] = kR if right else -kR
                qt = sec.q(phi)[1] + sec.ps(phi)[1]
                rhs[0] = qt * rest if right else -qt * rest
            if right:
                br = (M, rhs)
            else:
                bl = (M, rhs)
    else:
        raise ValueError(system)
    return Solution(sec, phi, li, ki, F, bl, br)


# --------------------------------------------------------------- touchdown
class Touchdown:
    """Slab touchdown stages of a PST from beam theory.

    The cantilevered part (length x) of the slab is a Timoshenko beam with the
    bending stiffness D - B^2/A about its neutral axis. The part of the slab
    that rests on the weak layer acts on it as a rotational and a (decoupled)
    translational spring. Contact: tip deflection tc. Full contact: in addition,
    horizontal tip tangent. The part in contact acts as a rotational spring.
    """

    def __init__(self, sec, phi, L, cf=0.5, ratio=1000.0):
        self.sec, self.L, self.ratio = sec, L, ratio
        self.bs = sec.D - sec.B**2 / sec.A
        self.qn = sec.q(phi)[0] + sec.ps(phi)[0]
        self.qt = sec.q(phi)[1] + sec.ps(phi)[1]
        self.tc = cf * sec.t - self.qn / sec.kn

    def springs(self, l):
        return (unit_stiffness(self.sec, l, 1.0, 'rot'),
                unit_stiffness(self.sec, l, 1.0, 'trans'))

    def tip_deflection(self, x, springs=None):
        """Free tip deflection of a cut of length x."""
        kR, kN = springs or self.springs(self.L - x)
        q = self.qn
        return (q * x**4 / (8 * self.bs) + q * x**2 / (2 * self.sec.kA55)
                + q * x**3 / (2 * kR) + q * x / kN)

    def tip_slope(self, x, springs, kRr=0.0):
        """Tangent w' at the end of a free span of length x whose end is held at
        the deflection tc and by a rotational spring kRr."""
        kR, kN = springs
        bs, ss, q = self.bs, self.sec.kA55, self.qn

        def end(w0, p0, M0, V0, q):
            M = M0 + V0 * x - q * x**2 / 2
            V = V0 - q * x
            p = p0 + (M0 * x + V0 * x**2 / 2 - q * x**3 / 6) / bs
            w = (w0 + (V0 * x - q * x**2 / 2) / ss
                 - (p0 * x + (M0 * x**2 / 2 + V0 * x**3 / 6 - q * x**4 / 24) / bs))
            return np.array([w, p, M, V])

        c = end(0, 0, 0, 0, q)
        J = np.column_stack([end(*e, 0) for e in np.eye(4)])
        A = np.array([[0, -kR, 1, 0], [-kN, 0, 0, 1], J[0], J[2] + kRr * J[1]])
        b = np.array([0, 0, self.tc - c[0], -(c[2] + kRr * c[1])])
        sc = np.array([1.0, 1.0 / x, bs / x**2, ss / x])       # column scaling
        A = A * sc[None, :]
        n = np.max(np.abs(A), axis=1)
        s = J @ (np.linalg.solve(A / n[:, None], b / n) * sc) + c
        return s[3] / ss - s[1]

    def contact_length(self):
        """Cut length at first contact; None if the column is too short."""
        f = lambda x: self.tip_deflection(x) - self.tc  # noqa: E731
        lo, hi = 1e-6 * self.L, 0.999 * self.L
        if self.tc <= 0:
            return None
        if f(hi) < 0:
            return np.inf
        return float(brentq(f, lo, hi, rtol=1e-10))

    def full_contact_length(self):
        f = lambda x: self.tip_slope(x, self.springs(self.L - x))  # noqa: E731
        a1 = self.contact_length()
        if a1 is None or not np.isfinite(a1):
            return a1
        hi = 0.999 * self.L
        if f(hi) > 0:
            return np.inf
        return float(brentq(f, a1, hi, rtol=1e-10))
