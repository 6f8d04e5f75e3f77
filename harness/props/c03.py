"""Segment solutions satisfy the field equations."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C03'
TITLE = 'Every segment solution satisfies the differential equations of equilibrium'
TECHNIQUE = ('property-based testing: residuals of the independently derived field equations by spectral '
             'differentiation')
NOTE = ('Random slabs, weak layers, loads, segments and free constants: derivative rows, three '
        'equilibrium equations, independence of the complementary solutions and derivative methods '
        'evaluated at random points. Steps are chosen from the decay lengths; the tolerance is relative '
        'to the largest term.')
ASSUMPTIONS = ['derivatives by polynomial collocation on stretches of a fraction of the decay length']

NC = 14
_k = np.arange(NC)
XC = (1 - np.cos(np.pi * _k / (NC - 1))) / 2          # Chebyshev nodes on [0, 1]


def _diffmat():
    x = 2 * XC - 1
    c = np.ones(NC)
    c[[0, -1]] = 2
    c *= (-1.0) ** _k
    D = np.outer(c, 1 / c) / (x[:, None] - x[None, :] + np.eye(NC))
    D -= np.diag(D.sum(axis=1))
    return 2 * D                                       # d/dx on [0, 1]


DC = _diffmat()


def field(c):
    """Nodes, solution vectors and derivative operator of one segment."""
    m = md.build(c, system='skiers', touch=False)
    sec = md.section(c)
    lam = np.max(np.abs(np.linalg.eigvals(sec.ode(0, True)[0])))
    l = c['l']
    d = min(l, c['span'] / lam)
    x = c['x'] * (l - d) + d * XC
    scale = (sec.mass * sec.g + abs(sec.p)) / sec.kn
    C = np.array(c['C'], dtype=float).reshape(6, 1) * c['amp'] * max(scale, 1e-6)
    if not c['bed']:
        # polynomial constants: w0, w0', w0'', w0''', u0, u0'
        ell = max(l, 100.0)
        C = C * np.array([1, 1 / ell, 1 / ell**2, 1 / ell**3, 1, 1 / ell])[:, None]
    return m, sec, x, d, C


def check_ode(c, rec):
    m, sec, x, d, C = field(c)
    phi = c['phi']
    bed = c['bed']
    Z = m.z({'list': list, 'tuple': tuple, 'array': np.asarray}[c['form']](x), C, c['l'], phi, bed=bed)
    if Z.shape != (6, NC):
        raise Violation(f'z has shape {Z.shape}')
    z1 = m.z(x[3], C, c['l'], phi, bed=bed)
    zc = m.z(x[3], np.zeros((6, 1)), c['l'], phi, bed=bed)
    close(rec, 'scalar', z1[:, 0], Z[:, 3], np.max(np.abs(Z), axis=1) + np.abs(zc[:, 0]), 1e-10,
          'z of a scalar position and of a sequence')
    if bed:                         # segments are supported unless said otherwise
        close(rec, 'default', m.z(x[3], C, c['l'], phi), z1, np.abs(z1) + np.abs(zc) + 1e-30, 1e-10, 'z without bed')
        close(rec, 'default', m.zp(x[3], phi), zc, np.abs(zc) + 1e-30, 1e-10, 'zp without bed')
        X = min(x[3], 5 / np.max(np.abs(np.concatenate([m.ewR, m.ewC.real]))))
        H = m.zh(X, 0, True)
        close(rec, 'default', m.zh(X), H, np.abs(H).max() + 1e-30, 1e-10, 'zh without length and bed')
    D = DC / d
    dZ = Z @ D.T
    mag = np.max(np.abs(Z), axis=1)
    for i, name in ((0, 'u'), (2, 'w'), (4, 'psi')):
        sc = mag[i] / d + mag[i + 1] + 1e-14
        close(rec, 'compatibility', dZ[i], Z[i + 1], sc, 1e-8, f"derivative of {name} (bed={bed})")
    A, B, Dd, kA, h, t = sec.A, sec.B, sec.D, sec.kA55, sec.h, sec.t
    N = A * Z[1] + B * Z[5]
    M = B * Z[1] + Dd * Z[5]
    V = kA * (Z[3] + Z[4])
    k = 1.0 if bed else 0.0
    sig = -k * sec.kn * Z[2]
    tau = k * sec.kt * (Z[0] + h / 2 * Z[4] - t / 2 * Z[3])
    qn, qt = sec.q(phi)
    pn, pt = sec.ps(phi)
    nN = (A * mag[1] + abs(B) * mag[5]) / d
    nM = (abs(B) * mag[1] + Dd * mag[5]) / d
    nV = kA * (mag[3] + mag[4]) / d
    ts = k * sec.kt * (mag[0] + h / 2 * mag[4] + t / 2 * mag[3])
    ss = k * sec.kn * mag[2]
    # residuals are compared with the terms of the equation; rounding of the
    # collocation derivative enters with its own, much smaller scale
    def res(name, r, terms, noise):
        sc = sum(np.max(np.abs(v)) for v in terms)
        close(rec, name, r, np.zeros(NC), sc * 1e-7 + noise * 3e-11 + 1e-18, 1.0,
              f'{name} equilibrium (bed={bed})')
    q = abs(qt) + abs(pt)
    res('tangential', N @ D.T - (tau - qt - pt), [N @ D.T, tau, q], nN + ts)
    res('normal', V @ D.T - (-sig - qn - pn), [V @ D.T, sig, qn + pn], nV + ss)
    res('moment', M @ D.T - (V + (h + t) / 2 * tau - sec.zs * qt + h / 2 * pt),
        [M @ D.T, V, (h + t) / 2 * tau, abs(sec.zs * qt) + h / 2 * abs(pt)],
        nM + (h + t) / 2 * ts + nV * d)
    if bed:
        # the collocation checks above show that Z solves the reference equations
        # (in a, b form), which hence give its derivatives without noise
        T = np.zeros((6, 6))
        T[0, 0] = T[1, 2] = T[2, 4] = 1
        T[3, [1, 5]], T[4, [1, 5]], T[5, [3, 4]] = (A, B), (B, Dd), (kA, kA)
        F, f = sec.ode(phi, True)
        Ti = np.linalg.inv(T)
        K, q1 = Ti @ F @ T, (Ti @ f)[:, None]
        aK = np.abs(Ti) @ np.abs(F) @ np.abs(T)
        a1 = aK @ np.abs(Z) + np.abs(Ti) @ np.abs(f)[:, None]
        w1 = K @ Z + q1
        d1, d2 = m.dz_dx(Z, phi), m.dz_dxdx(Z, phi)
        close(rec, 'dz_dx', d1, w1, a1 + 1e-30, 1e-8, 'dz_dx')
        close(rec, 'dz_dxdx', d2, K @ w1, aK @ a1 + 1e-30, 1e-8, 'dz_dxdx')
        for name, got, want in (('du0_dxdx', m.du0_dxdx(Z, phi), d1[1]),
                                ('dpsi_dxdx', m.dpsi_dxdx(Z, phi), d1[5]),
                                ('du0_dxdxdx', m.du0_dxdxdx(Z, phi), d2[1]),
                                ('dpsi_dxdxdx', m.dpsi_dxdxdx(Z, phi), d2[5])):
            close(rec, name, got, want, np.max(np.abs(want)) + 1e-30, 1e-9, name)
    rec.label('supported' if bed else 'unsupported', 'no constants' if not any(c['C']) else None,
              'single constant' if sum(v != 0 for v in c['C']) == 1 else None,
              'surface load' if c['p'] else None, 'phi=0' if c['phi'] == 0 else None)
    rec.nontrivial = bool(c['phi'] != 0 or any(c['C']))


def check_independent(c, rec):
    """The six complementary solutions span all solutions."""
    m = md.build(c, system='skiers', touch=False)
    sec = md.section(c)
    lam = np.max(np.abs(np.linalg.eigvals(sec.ode(0, True)[0])))
    l = c['span'] / lam
    phi = c['phi']
    x = c['x'] * l
    zero = m.z(x, np.zeros((6, 1)), l, phi, bed=c['bed'])
    H = np.column_stack([m.z(x, e[:, None], l, phi, bed=c['bed']) - zero for e in np.eye(6) * 1e6])
    unit = np.array([1, lam, 1, lam, lam, lam**2])
    H = H / unit[:, None]
    H = H / np.linalg.norm(H, axis=0)
    smin = np.linalg.svd(H, compute_uv=False)[-1]
    rec.metric('1/smallest singular value', 1 / max(smin, 1e-30))
    if not smin > 1e-13:
        raise Violation(f'complementary solutions are dependent (bed={c["bed"]}, '
                        f'smallest singular value {smin:.3g})')
    rec.label('supported' if c['bed'] else 'unsupported')
    rec.nontrivial = True


def case_ode():
    coef = st.one_of(st.lists(st.integers(-100, 100), min_size=6, max_size=6),
                     st.sampled_from([[int(i == j) for i in range(6)] for j in range(6)]),
                     st.just([0] * 6))
    return st.builds(lambda b, o: {**b, **o}, gen.base(89), st.fixed_dictionaries({
        'l': gen.lognum(2, 30000), 'x': gen.num(0, 1, 3), 'span': gen.num(0.2, 1, 1),
        'bed': st.sampled_from([True, False]), 'C': coef, 'amp': gen.lognum(0.01, 10), 'form': st.sampled_from(['list', 'tuple', 'array'])}))


def case_ind():
    return st.builds(lambda b, o: {**b, **o}, gen.base(89), st.fixed_dictionaries({
        'x': gen.num(0, 1, 2), 'span': gen.num(0.3, 2, 1), 'bed': st.sampled_from([True, False])}))


SUBS = [
    Sub('equations', case_ode, check_ode, (3200, 60000),
        'random configuration, segment, position and constants; non-trivial on slopes or with constants'),
    Sub('independence', case_ind, check_independent, (1200, 20000), 'random configuration and position'),
]
