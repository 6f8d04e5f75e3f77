"""Building WEAC models from cases and comparing them with the reference."""
import numpy as np

from harness import gen, ref
from harness.core import Violation, close

import weac


def rows(slab):
    """Rows (density, thickness, E, nu) from the case description alone."""
    nu = slab.get('nu', 0.25)
    if isinstance(slab['layers'], str):
        return [(r, h, E, nu) for r, h, E in gen.db_rows(slab['layers'])]
    C0, C1 = slab.get('C0', 6.5), slab.get('C1', 4.4)
    return [(float(r), float(h), C0 * 1e3 * (r / 917) ** C1, nu) for r, h in slab['layers']]


def layers_arg(slab):
    lay = slab['layers']
    if isinstance(lay, str):
        return lay
    if slab.get('form') == 'array':
        return np.array(lay, dtype=float)
    if slab.get('form') == 'tuples':
        return [tuple(r) for r in lay]
    return [list(r) for r in lay]


def section(c, **over):
    r = np.array(rows(c['slab']), dtype=float)
    w = c['weak']
    kw = dict(p=c.get('p', 0), g=c.get('g', 9810.0))
    kw.update(over)
    return ref.Section(r[:, 0], r[:, 1], r[:, 2], r[:, 3], w['t'], w['E'], w['nu'], **kw)


def build(c, system=None, touch=None, cls=None):
    """Model instance through the documented calls."""
    s = c['slab']
    st = c.get('st', {})
    system = system or st.get('system', 'pst-')
    touch = st.get('touch', False) if touch is None else touch
    m = weac.Layered(system=system, layers=layers_arg(s), touchdown=touch)
    if (s.get('C0', 6.5), s.get('C1', 4.4), s.get('nu', 0.25)) != (6.5, 4.4, 0.25):
        m.set_beam_properties(layers_arg(s), C0=s.get('C0', 6.5), C1=s.get('C1', 4.4),
                              nu=s.get('nu', 0.25), update=False)
    w = c['weak']
    if 'g' in c:
        m.g = c['g']
    if 'lski' in c:
        m.lski = c['lski']
    m.set_foundation_properties(t=w['t'], E=w['E'], nu=w['nu'], update=True)
    m.set_surface_load(c.get('p', 0))
    return m


def segments(m, c, key='crack', phi=None):
    st = c['st']
    phi = c['phi'] if phi is None else phi
    if st['system'] == 'skiers':
        segs = m.calc_segments(li=list(st['li']), mi=list(st['mi']), ki=list(st['ki']),
                               k0=list(st['k0']), phi=phi)
    elif 'li' in st:
        # lists solved directly; the set-up call initialises the model
        m.calc_segments(phi=phi)
        a = {'li': np.array(st['li'], dtype=float), 'mi': np.array(st['mi'])}
        k1, k0 = np.array(st['ki']), np.array(st['k0'])
        segs = {'nocrack': dict(a, ki=k0), 'crack': dict(a, ki=k1), 'both': dict(a, ki=k1, k0=k0)}
    else:
        kw = {k: st[k] for k in ('L', 'a', 'm', 'cf', 'ratio') if k in st}
        segs = m.calc_segments(phi=phi, **kw)
    return segs[key] if key else segs


def solve(c, key='crack'):
    m = build(c)
    s = segments(m, c, key)
    C = m.assemble_and_solve(phi=c['phi'], **s)
    return m, s, C


def as_state(m, z):
    """(u, w, psi, N, M, V) rows from solution vectors via the public methods."""
    z = np.asarray(z)
    return np.vstack([m.u(z, z0=0), m.w(z), m.psi(z), m.N(z), m.M(z), m.V(z)])


def seg_state(m, s, C, i, x, phi):
    """State in segment i at local coordinate(s) x."""
    return as_state(m, m.z(x, C[:, [i]], s['li'][i], phi, bed=s['ki'][i]))


def scales(sec, phi, F=(), S=None):
    """Magnitudes (u, w, psi, N, M, V) below which deviations do not matter.

    Physical load scale, raised to the largest magnitude met in the solution.
    """
    Q = sec.mass * sec.g + abs(sec.p)
    P = sum(abs(a) + abs(b) for a, b in F)
    ew = np.abs(np.linalg.eigvals(sec.ode(0, True)[0]))
    ell = 1 / np.min(ew)
    f = Q * ell + P
    w = (Q + P / ell) / sec.kn
    u = (Q + P / ell) / sec.kt
    out = np.array([u, w, max(w, u) / ell, f, f * max(ell, sec.h), f])
    if S is not None:
        out = np.maximum(out, np.max(np.abs(S), axis=1))
    return out


def reference(c, s, m, sec=None, phi=None):
    """Reference solution of the segments a model reports."""
    sec = sec or section(c)
    phi = c['phi'] if phi is None else phi
    st = c['st']
    kw = {}
    if st['system'] in ('pst-', '-pst') and st.get('touch'):
        kw = dict(mode=m.mode, tc=m.tc, rest=m.a - m.td, ratio=st.get('ratio', 1000))
    return ref.solve_structure(sec, st['system'], phi, s['li'], s['mi'], s['ki'],
                               lski=c.get('lski', 1000.0), **kw)


def forces(c, s, sec, phi=None):
    return ref.skier_forces(sec, s['mi'], c['phi'] if phi is None else phi,
                            c.get('lski', 1000.0))


def labels(rec, c, s=None):
    st = c.get('st', {})
    rec.label('system ' + st['system'] if st else None,
              'phi=0' if c['phi'] == 0 else ('phi<0' if c['phi'] < 0 else 'phi>0'),
              'steep' if abs(c['phi']) > 60 else None,
              'surface load' if c.get('p') else None)
    lay = c['slab']['layers']
    rec.label('database profile' if isinstance(lay, str) else
              ('one layer' if len(lay) == 1 else 'layered'))
    if s is not None:
        rec.label('cracked' if any((not k) and l > 0 for k, l in zip(s['ki'], s['li'])) else 'uncracked',
                  'zero-length segment' if any(l == 0 for l in s['li']) else None,
                  'skier load' if any(v > 0 for v in s['mi']) else None)


def decay(sec):
    """Smallest decay rate (real part of the eigenvalues) of the supported slab."""
    return float(np.min(np.abs(np.linalg.eigvals(sec.ode(0, True)[0]).real)))


def resolve_touch(c, sec=None):
    """Complete a touch_struct with column length, cut length and collapse
    factor so that the requested stage is met (unless the column is short)."""
    sec = sec or section(c)
    c = dict(c)
    s = dict(c['st'])
    q = sec.q(c['phi'])[0] + sec.ps(c['phi'])[0]
    settle = q / sec.kn / sec.t
    if s['cf0'] is None:
        cf = 0.5 if settle < 0.45 else settle + 0.5 * (1 - settle)
        if cf != 0.5:
            s['cf'] = round(cf, 6)
    else:
        cf = settle + s['cf0'] * max(1 - settle, 0.05)
        s['cf'] = round(cf, 6)
    ell = 1 / decay(sec)
    T = ref.Touchdown(sec, c['phi'], 40 * ell, cf=s.get('cf', 0.5), ratio=s['ratio'])
    sp = T.springs(12 * ell)
    hi = 1.0
    while T.tip_deflection(hi, sp) < T.tc:
        hi *= 2
    a1 = ref.brentq(lambda x: T.tip_deflection(x, sp) - T.tc, 0, hi, rtol=1e-6)
    hi = a1
    while T.tip_slope(hi, sp) > 0:
        hi *= 1.5
    a2 = ref.brentq(lambda x: T.tip_slope(x, sp), hi / 1.6, hi, rtol=1e-6) if hi > a1 else a1
    f = s['f']
    a = {'A': 0.98 * f * a1, 'B': a1 + (0.05 + 0.9 * f) * (a2 - a1),
         'C': a2 * (1.05 + 2 * f)}[s['stage']]
    s['a'] = round(a, 2)
    s['L'] = round(a + s['rest'] * ell, 2)
    c['st'] = s
    return c
