"""Stress fields in the slab."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C13'
TITLE = 'Slab stress fields are in equilibrium with section forces and weak layer'
TECHNIQUE = 'property-based testing: through-depth equilibrium oracle on random solution vectors and solved systems'
NOTE = (
    'Random solution vectors and points of solved systems: stress fields compared at every grid point with stresses '
    'integrated from the layer law and the independent equations of equilibrium, with rigorous bounds for the '
    'discretisation; section-force resultants, boundary tractions, units and column independence. Known finding F11: '
    'points of unsupported segments.'
)
SC = np.array([1, 1e-3, 1, 1e-3, 1e-3, 1e-6])


def layer_index(zi):
    """Layer of each grid point: both faces of every layer are grid points."""
    k = np.zeros(len(zi), dtype=int)
    for i in range(1, len(zi)):
        k[i] = k[i - 1] + (abs(zi[i] - zi[i - 1]) < 1e-9)
    return k


def fields(sec, Z, phi, zi, k, bed=True):
    """Reference Sxx, Txz, Szz (MPa) at grid points, magnitudes and bounds of
    the discretisation error of each."""
    Q = sec.E / (1 - sec.nu**2)
    F, f = sec.ode(phi, bed)
    S = np.array([Z[0], Z[2], Z[4], sec.A * Z[1] + sec.B * Z[5], sec.B * Z[1] + sec.D * Z[5],
                  sec.kA55 * (Z[3] + Z[4])])
    d1 = F @ S + f[:, None]
    d2 = F @ d1
    K = np.linalg.inv(np.array([[sec.A, sec.B], [sec.B, sec.D]]))
    u2, p2 = K @ d1[[3, 4]]
    u3, p3 = K @ d2[[3, 4]]
    # absolute sums bound rounding errors of cancelling terms
    A1 = np.abs(F) @ np.abs(S) + np.abs(f)[:, None]
    A2 = np.abs(F) @ A1
    mu2, mp2 = np.abs(K) @ A1[[3, 4]]
    mu3, mp3 = np.abs(K) @ A2[[3, 4]]
    r = np.deg2rad(phi)
    rho = sec.rho * 1e-12 * sec.g
    pn, pt = sec.p * np.cos(r), -sec.p * np.sin(r)
    n, m = len(zi), Z.shape[1]
    out = [np.zeros((n, m)) for _ in range(3)]
    mag = [np.zeros((n, m)) for _ in range(3)]
    err = [np.zeros((n, 1)), np.zeros((n, 1)), np.zeros((n, m))]
    z = zi[:, None]
    out[0] = Q[k][:, None] * (Z[1] + z * Z[5])
    mag[0] = Q[k][:, None] * (np.abs(Z[1]) + sec.h / 2 * np.abs(Z[5]))
    # integrals over the layers above, then over part of the own layer
    T0, X0, Z0 = np.full(m, pt), np.zeros(m), np.full(m, -pn)
    T0m, X0m, Z0m, E0 = np.full(m, abs(pt)), np.zeros(m), np.full(m, abs(pn)), np.zeros(m)
    step = np.zeros(len(sec.th))
    for j in range(len(sec.th)):
        zj = zi[k == j]
        step[j] = np.max(np.diff(zj)) if len(zj) > 1 else 0
    for j in range(len(sec.th)):
        a = sec.top[j]
        rows = np.where(k == j)[0]
        for i in list(rows) + [None]:
            b = sec.bot[j] if i is None else zi[i]
            L1, L2, L3 = b - a, (b**2 - a**2) / 2, (b**3 - a**3) / 3
            T = T0 + Q[j] * (u2 * L1 + p2 * L2) - rho[j] * np.sin(r) * L1
            Tm = T0m + Q[j] * (mu2 * L1 + mp2 * sec.h / 2 * L1) + rho[j] * abs(np.sin(r)) * L1
            X = X0 + Q[j] * (u3 * L1 + p3 * L2)
            Xm = X0m + Q[j] * (mu3 * L1 + mp3 * sec.h / 2 * L1)
            # integral of X from a to b
            IX = X0 * L1 + Q[j] * (u3 * L1**2 / 2 + p3 * (L3 - a**2 * L1) / 2)
            S_ = Z0 + IX - rho[j] * np.cos(r) * L1
            Sm = Z0m + Xm * L1 + rho[j] * abs(np.cos(r)) * L1
            E_ = E0 + Q[j] * np.abs(p3) * L1 * step[j]**2 / 12
            if i is None:
                T0, X0, Z0, T0m, X0m, Z0m, E0 = T, X, S_, Tm, Xm, Sm, E_
            else:
                out[1][i], out[2][i], mag[1][i], mag[2][i], err[2][i] = T, S_, Tm, Sm, E_
    err[0][:, 0] = rho[k] * abs(np.sin(r)) * max(step)
    return out, mag, err


def compare(rec, m, sec, Z, phi, dz, what, bed=True):
    zi = np.asarray(m.get_zmesh(dz=dz))[:, 0]
    k = layer_index(zi)
    if k[-1] != len(sec.th) - 1 or abs(zi[0] + sec.h / 2) > 1e-6 or abs(zi[-1] - sec.h / 2) > 1e-6:
        raise Violation(f'mesh through the depth does not follow the layers: {zi}')
    out, mag, err = fields(sec, Z, phi, zi, k, bed)
    got = [np.array(f(Z, phi, dz=dz, unit='MPa')) for f in (m.Sxx, m.Txz, m.Szz)]
    for name, g, o, a, e in zip(('Sxx', 'Txz', 'Szz'), got, out, mag, err):
        # 1e-13 of the largest value: rounding of the coordinates of the mesh
        tol = 1e-8 * a + 1.01 * e + 1e-13 * a.max(axis=0) + 1e-15
        close(rec, f'{name} / allowed', g, o, tol, 1.0, f'{name} {what} (dz={dz})')
    return zi, k, got, mag, err


def check(c, rec):
    phi, dz = c['phi'], c['dz']
    sec = md.section(c)
    if 'Z' in c:
        m = md.build(c, system='skiers', touch=False)
        Z = np.array(c['Z'], dtype=float).T * SC[:, None]
    else:
        if c['st'].get('touch'):
            c = md.resolve_touch(c, sec)
        m, s, C = md.solve(c)
        cols = []
        for i, l in enumerate(s['li']):
            if s['ki'][i]:
                cols.append(m.z(np.array([0.0, 0.21, 0.5, 0.83, 1.0]) * l, C[:, [i]], l, phi, bed=True))
        Z = np.hstack(cols)
        md.labels(rec, c, s)
    zi, k, (Sx, T, S), mag, err = compare(rec, m, sec, Z, phi, dz, 'at supported points')
    # resultants: the stress is linear within each layer
    N, M = np.zeros(Z.shape[1]), np.zeros(Z.shape[1])
    for j in range(len(sec.th)):
        r = np.where(k == j)[0]
        a, b = sec.top[j], sec.bot[j]
        sa, sb = Sx[r[0]], Sx[r[-1]]
        N += (sa + sb) / 2 * (b - a)
        M += (b - a) / 6 * (sa * (2 * a + b) + sb * (a + 2 * b))
    eN = err[0].max() * sec.h + 1e-9 * np.max(mag[0], axis=0) * sec.h
    close(rec, 'resultant N / allowed', N, m.N(Z), eN * 1.01 + 1e-15, 1.0, 'integral of Sxx and N')
    close(rec, 'resultant M / allowed', M, m.M(Z), eN * sec.h + 1e-15, 1.0, 'integral of z*Sxx and M')
    # boundary tractions
    pn, pt = sec.ps(phi)
    close(rec, 'top shear', T[0], np.full_like(T[0], pt), 1e-9 * mag[1].max(axis=0) + 1e-15, 1.0, 'Txz at the top')
    close(rec, 'top normal', S[0], np.full_like(S[0], -pn), 1e-9 * mag[2].max(axis=0) + 1e-15, 1.0, 'Szz at the top')
    close(rec, 'bottom shear', T[-1], m.tau(Z), 1e-8 * mag[1][-1] + 1e-15, 1.0, 'Txz at the bottom and tau')
    for name in ('Sxx', 'Txz', 'Szz'):
        f = getattr(m, name)
        a, b = f(Z, phi, dz=dz, unit='MPa'), f(Z, phi, dz=dz)
        sc = np.max(np.abs(a)) + 1e-30
        close(rec, 'units', f(Z, phi, dz=dz, unit='kPa'), 1e3 * a, 1e3 * sc, 1e-11, f'{name} in kPa and MPa')
        close(rec, 'units', b, 1e3 * a, 1e3 * sc, 1e-11, f'{name}: kPa is the default')
        j = c['col'] % Z.shape[1]
        # summation order in the products may differ
        close(rec, 'columns', f(Z[:, [j]], phi, dz=dz, unit='MPa')[:, 0], a[:, j],
              1e-10 * mag[('Sxx', 'Txz', 'Szz').index(name)][-1].max() + 1e-10 * sc, 1.0,
              f'{name}: a column depends on other columns')
    rec.label(f'dz > layer' if dz > sec.th.min() else None)
    rec.nontrivial = True


def check_free(c, rec):
    """Points over unsupported stretches (finding F11)."""
    phi, dz = c['phi'], c['dz']
    m, s, C = md.solve(c)
    sec = md.section(c)
    cols = [m.z(np.array([0.21, 0.5, 0.83]) * l, C[:, [i]], l, phi, bed=False)
            for i, l in enumerate(s['li']) if not s['ki'][i] and l > 0]
    if not cols:
        return
    Z = np.hstack(cols)
    rec.nontrivial = True
    md.labels(rec, c, s)
    try:
        compare(rec, m, sec, Z, phi, dz, 'at unsupported points', bed=False)
        return
    except Violation as v:
        msg = str(v)
    compare(rec, m, sec, Z, phi, dz, 'at unsupported points', bed=True)
    raise Violation(msg + '; the equations of the supported slab are used', finding='F11-unsupported-slab-stress')


def dz():
    return st.one_of(st.just(2), gen.num(1, 40), gen.num(0.7, 10, 1), st.just(300))


def random_Z():
    col = st.lists(gen.num(-100, 100, 2), min_size=6, max_size=6)
    return st.builds(lambda a, z, d, k: {**a, 'Z': z, 'dz': d, 'col': k}, gen.base(),
                     st.lists(col, min_size=1, max_size=3), dz(), st.integers(0, 9))


def solved(s):
    return st.builds(lambda a, d, k: {**a, 'dz': d, 'col': k}, gen.config(s), dz(), st.integers(0, 99))


SUBS = [
    Sub('vectors', random_Z, check, (640, 12000), 'random solution vectors, slabs and mesh sizes'),
    Sub('solved', lambda: solved(gen.any_struct()), check, (640, 12000), 'supported points of random solved systems'),
    Sub('touchdown', lambda: solved(gen.touch_struct()), check, (80, 1600), 'supported points of PST with touchdown'),
    Sub('unsupported', lambda: solved(gen.any_struct()), check_free, (240, 4000),
        'points over cracks; non-trivial with a crack'),
]
