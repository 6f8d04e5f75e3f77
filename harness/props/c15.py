"""Field quantities and output helpers."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C15'
TITLE = 'Field quantities and output helpers report the solution in the requested units'
TECHNIQUE = 'property-based testing against the defining formulas'
NOTE = (
    'Random solution vectors (units spread over many orders of magnitude) and rasterised solutions with unsupported '
    'stretches: every field quantity, unit and output helper compared with its definition from independently computed '
    'section and weak-layer properties; inputs compared with copies.'
)
LEN = {'m': 1e-3, 'cm': 1e-1, 'mm': 1.0, 'um': 1e3}
ANG = {'deg': 180 / np.pi, 'degree': 180 / np.pi, 'degrees': 180 / np.pi, 'rad': 1.0, 'radians': 1.0, 'radian': 1.0}
STR = {'MPa': 1.0, 'kPa': 1e3}
SC = np.array([1, 1e-3, 1, 1e-3, 1e-3, 1e-6])


def rel(rec, name, got, want, mag, what):
    close(rec, name, got, want, np.abs(mag) + 1e-30, 1e-10, what)


def check_fields(c, rec):
    m = md.build(c, system='skiers', touch=False)
    sec = md.section(c)
    Z = np.array(c['Z'], dtype=float).T * SC[:, None]
    Z0 = Z.copy()
    u0, du, w, dw, p, dp = Z
    h, t = sec.h, sec.t
    for z0 in (0, h / 2, -h / 2, c['z0'] * h):
        u, mag = u0 + z0 * p, np.abs(u0) + abs(z0 * p)
        rel(rec, 'u', m.u(Z, z0=z0), u, mag, f'u at z0={z0}')
        rel(rec, 'u', m.u(Z, z0), u, mag, f'u at z0={z0}')
        for k, f in LEN.items():
            rel(rec, 'u', m.u(Z, z0=z0, unit=k), u * f, mag * f, f'u at z0={z0} in {k}')
        rel(rec, "u'", m.du_dx(Z, z0), du + z0 * dp, np.abs(du) + abs(z0 * dp), f"u' at z0={z0}")
    rel(rec, 'w', m.w(Z), w, w, 'w')
    for k, f in LEN.items():
        rel(rec, 'w', m.w(Z, unit=k), w * f, w * f, f'w in {k}')
    rel(rec, 'psi', m.psi(Z), p, p, 'psi')
    for k, f in ANG.items():
        rel(rec, 'psi', m.psi(Z, unit=k), p * f, p * f, f'psi in {k}')
    rel(rec, 'derivatives', m.dw_dx(Z), dw, dw, "w'")
    rel(rec, 'derivatives', m.dpsi_dx(Z), dp, dp, "psi'")
    # B11 is a difference of layer contributions
    B = np.sum(sec.E / (1 - sec.nu**2) * sec.th * np.abs(sec.mid)) + sec.A * 1e-6
    rel(rec, 'N', m.N(Z), sec.A * du + sec.B * dp, sec.A * np.abs(du) + B * np.abs(dp), 'N')
    rel(rec, 'M', m.M(Z), sec.B * du + sec.D * dp, B * np.abs(du) + sec.D * np.abs(dp), 'M')
    rel(rec, 'V', m.V(Z), sec.kA55 * (dw + p), sec.kA55 * (np.abs(dw) + np.abs(p)), 'V')
    sig, tau = -sec.kn * w, sec.kt * (u0 + h / 2 * p - t / 2 * dw)
    mt = sec.kt * (np.abs(u0) + h / 2 * np.abs(p) + t / 2 * np.abs(dw))
    rel(rec, 'sig', m.sig(Z), sig, sig, 'sig')
    rel(rec, 'tau', m.tau(Z), tau, mt, 'tau')
    for k, f in STR.items():
        rel(rec, 'sig', m.sig(Z, unit=k), sig * f, sig * f, f'sig in {k}')
        rel(rec, 'tau', m.tau(Z, unit=k), tau * f, mt * f, f'tau in {k}')
    rel(rec, 'strain', m.eps(Z), sig / (sec.kn * t), sig / (sec.kn * t), 'normal strain and stress over modulus')
    rel(rec, 'strain', m.gamma(Z), tau / (sec.kt * t), mt / (sec.kt * t), 'shear strain and stress over modulus')
    if not np.array_equal(Z, Z0):
        raise Violation('field quantities modify the solution vector')
    rec.nontrivial = bool(np.all(np.any(Z != 0, axis=1)))
    rec.label('one layer' if len(sec.th) == 1 else 'layered')


def eqn(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def check_helpers(c, rec):
    m, s, C = md.solve(c)
    sec = md.section(c)
    xq, zq, xb = m.rasterize_solution(C=C, phi=c['phi'], num=c['num'], **s)
    if c['mask']:               # arbitrary points may be unsupported
        xb = xq.copy()
        xb[[i % len(xb) for i in c['mask']]] = np.nan
    keep = xq.copy(), zq.copy(), xb.copy()
    h = sec.h

    def same(what):
        if not (eqn(xq, keep[0]) and eqn(zq, keep[1]) and eqn(xb, keep[2])):
            raise Violation(f'{what} modifies its inputs')

    def pair(what, got, x, y, mag):
        if len(got) != 2:
            raise Violation(f'{what} returns {len(got)} values')
        for g, e in ((got[0], x), (got[1], y)):
            g = np.asarray(g)
            if g.shape != np.shape(e) or not np.array_equal(np.isnan(g), np.isnan(e)):
                raise Violation(f'{what}: returned points {g} differ from {e}')
        ok = ~np.isnan(x)
        close(rec, 'helpers', np.asarray(got[0])[ok], x[ok], np.abs(x[ok]) + 1e-9, 1e-12, f'{what}: position (cm)')
        ok = ~np.isnan(y)
        close(rec, 'helpers', np.asarray(got[1])[ok], y[ok], mag[ok] + 1e-30, 1e-10, what)
        same(what)

    u0, _, w, dw, p, _ = zq
    for x in (xq, xb):
        for loc, z0 in (('top', -h / 2), ('mid', 0.0), ('bot', h / 2)):
            y, mag = u0 + z0 * p, np.abs(u0) + abs(z0) * np.abs(p)
            for k, f in LEN.items():
                pair(f'displacement at {loc} in {k}', m.get_slab_displacement(x, zq, loc=loc, unit=k),
                     x / 10, y * f, mag * f)
        pair('displacement (default)', m.get_slab_displacement(x, zq), x / 10, u0, np.abs(u0))
        for k, f in LEN.items():
            pair(f'deflection in {k}', m.get_slab_deflection(x, zq, unit=k), x / 10, w * f, np.abs(w) * f)
        pair('deflection (default)', m.get_slab_deflection(x, zq), x / 10, w, np.abs(w))
        for k, f in ANG.items():
            pair(f'rotation in {k}', m.get_slab_rotation(x, zq, unit=k), x / 10, p * f, np.abs(p) * f)
        pair('rotation (default)', m.get_slab_rotation(x, zq), x / 10, np.rad2deg(p), np.abs(p) * 60)
        sig, tau = -sec.kn * w, sec.kt * (u0 + h / 2 * p - sec.t / 2 * dw)
        mt = sec.kt * (np.abs(u0) + h / 2 * np.abs(p) + sec.t / 2 * np.abs(dw))
        no = np.isnan(x)
        for name, f0, y, mag in (('normal', m.get_weaklayer_normalstress, sig, np.abs(sig)),
                                 ('shear', m.get_weaklayer_shearstress, tau, mt)):
            for k, f in STR.items():
                pair(f'weak-layer {name} stress in {k}', f0(x, zq, unit=k), x / 10,
                     np.where(no, np.nan, y * f), mag * f)
                pair(f'weak-layer {name} stress in {k} without NaN', f0(x, zq, unit=k, removeNaNs=True),
                     x[~no] / 10, y[~no] * f, mag[~no] * f)
                pair(f'weak-layer {name} stress in {k} with NaN', f0(x, zq, unit=k, removeNaNs=False),
                     x / 10, np.where(no, np.nan, y * f), mag * f)
            pair(f'weak-layer {name} stress (default)', f0(x, zq), x / 10, np.where(no, np.nan, y), mag)
    md.labels(rec, c, s)
    rec.nontrivial = bool(np.any(np.isnan(xb)))


def vectors():
    col = st.lists(st.one_of(gen.num(-100, 100, 2), gen.lognum(1e-9, 1e6)), min_size=6, max_size=6)
    return st.builds(lambda a, z, z0: {**a, 'Z': z, 'z0': z0}, gen.base(), st.lists(col, min_size=1, max_size=4),
                     gen.num(-0.5, 0.5, 2))


def helpers():
    return st.builds(lambda a, n, k: {**a, 'num': n, 'mask': k}, gen.config(gen.any_struct()), st.integers(3, 60),
                     st.one_of(st.just([]), st.lists(st.integers(0, 80), min_size=1, max_size=12)))


SUBS = [
    Sub('fields', vectors, check_fields, (2400, 40000), 'random solution vectors without a vanishing component'),
    Sub('helpers', helpers, check_helpers, (480, 8000), 'rasterised solutions; non-trivial with unsupported points'),
]
