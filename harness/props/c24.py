"""Vertical column faces."""
import numpy as np
from hypothesis import strategies as st

import weac
from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close
from harness.props.c12 import gauss

ID = 'C24'
TITLE = 'Vertical column faces act through the exact weight and centroid of the wedge'
TECHNIQUE = 'property-based testing: exact wedge integrals and balance of the true outline'
NOTE = (
    'Random layerings and inclinations: wedge mass and centroid compared with exact integrals per layer; section '
    'forces at both column ends compared with the wedge resultant; normal force, shear force and moment of the '
    'integrated weak-layer stresses compared with the weight of the true parallelogram-shaped column; flat columns '
    'compared with slope-normal faces.'
)


def check_wedge(c, rec):
    sec = md.section({**c, 'weak': {'t': 30, 'E': 0.25, 'nu': 0.25}})
    m = md.build({**c, 'weak': {'t': 30, 'E': 0.25, 'nu': 0.25}}, system='vpst-')
    phi = c['phi']
    slab = np.array(m.slab, copy=True)
    xs, zs, w = weac.tools.calc_vertical_bc_center_of_gravity(slab, phi)
    if not np.array_equal(slab, m.slab):
        raise Violation('layer table modified')
    M, X, Z = sec.wedge(phi)
    T = np.tan(np.deg2rad(phi))
    close(rec, 'mass', w, M, abs(T) * sec.mass * sec.h, 1e-11, 'wedge mass')
    close(rec, 'zs', zs, Z, sec.h, 1e-10, 'wedge centroid zs')
    close(rec, 'xs', xs, X, sec.h * abs(T), 1e-10, 'wedge centroid xs')
    H, z = weac.tools.calc_center_of_gravity(slab)
    close(rec, 'slab', [H, z], [sec.h, sec.zs], sec.h, 1e-11, 'slab thickness and centre of gravity')
    rec.label('flat' if phi == 0 else 'phi<0' if phi < 0 else 'phi>0', 'steep' if abs(phi) > 60 else None,
              'layered' if len(sec.th) > 1 else 'one layer')
    rec.nontrivial = phi != 0


def check_ends(c, rec):
    m, s, C = md.solve(c)
    sec, phi = md.section(c), c['phi']
    r = np.deg2rad(phi)
    g, h = sec.g, sec.h
    M, X, Z = sec.wedge(phi)
    n = len(s['li'])
    S = [md.seg_state(m, s, C, 0, 0.0, phi)[:, 0], md.seg_state(m, s, C, n - 1, float(s['li'][-1]), phi)[:, 0]]
    want = np.array([-g * M * np.sin(r), -g * M * (X * np.cos(r) + Z * np.sin(r)), g * M * np.cos(r)])
    all_ = np.hstack([md.seg_state(m, s, C, i, np.linspace(0, l, 15), phi) for i, l in enumerate(s['li'])])
    sc = md.scales(sec, phi, md.forces(c, s, sec), all_)[3:]
    for name, v in (('left', S[0]), ('right', S[1])):
        close(rec, 'end forces', v[3:], want, sc + 1e-12, 1e-7, f'section forces at the {name} end')
    # weak-layer stresses carry the true outline: parallelogram with vertical faces
    L, lam = float(np.sum(s['li'])), sec.lam()
    off = np.concatenate([[0], np.cumsum(s['li'])])
    R, A = np.zeros(3), np.zeros(3)
    for i, l in enumerate(s['li']):
        if s['ki'][i] and l > 0:
            x, w = gauss(l, lam)
            z = md.as_state(m, m.z(x, C[:, [i]], l, phi, bed=True))
            f = np.array([-sec.sig(z), sec.tau(z), -sec.sig(z) * (off[i] + x)])
            R += f @ w
            A += np.abs(f) @ w
    W = sec.mass * g * L
    P = sec.p * L
    Fn, Ft = (W + P) * np.cos(r), -(W + P) * np.sin(r)
    top = h + sec.t / 2
    mom = W * (L / 2 * np.cos(r) - sec.t / 2 * np.sin(r)) + P * (L / 2 * np.cos(r) - top * np.sin(r))
    for j, v in enumerate(s['mi']):
        F = 1e-3 * v * g / c.get('lski', 1000.0)
        Fn, Ft = Fn + F * np.cos(r), Ft - F * np.sin(r)
        mom += F * (off[j + 1] * np.cos(r) - top * np.sin(r))
    mag = np.array([abs(Fn) + abs(Ft), abs(Fn) + abs(Ft), (abs(Fn) + abs(Ft)) * (L + h)])
    close(rec, 'outline', R, [Fn, Ft, mom], A + mag + np.array([1, 1, L]) * sc[2], 1e-7,
          'normal force, shear force and moment of the weak layer')
    md.labels(rec, c, s)
    rec.nontrivial = phi != 0


def check_flat(c, rec):
    """Without slope, both kinds of column coincide."""
    c['phi'] = 0
    d = {**c, 'st': {**c['st'], 'system': c['st']['system'].replace('v', '')}}
    m, s, C = md.solve(c)
    n, r, D = md.solve(d)
    sec = md.section(c)
    for i, l in enumerate(s['li']):
        x = np.linspace(0, l, 9)
        a, b = md.seg_state(m, s, C, i, x, 0), md.seg_state(n, r, D, i, x, 0)
        close(rec, 'flat', a, b, md.scales(sec, 0, S=b)[:, None], 1e-7, 'flat column with vertical and with normal faces')
    md.labels(rec, c, s)
    rec.nontrivial = True


def columns():
    return st.one_of(gen.auto_struct(systems=('vpst-', '-vpst')),
                     gen.free_struct().filter(lambda s: s['system'] in ('vpst-', '-vpst')))


SUBS = [
    Sub('wedge', lambda: st.fixed_dictionaries({'slab': gen.slab(max_layers=9), 'phi': gen.phi(89)}), check_wedge,
        (4000, 60000), 'random layerings; non-trivial with a slope'),
    Sub('columns', lambda: gen.config(columns()), check_ends, (800, 12000), 'random columns; non-trivial with a slope'),
    Sub('flat', lambda: gen.config(columns()), check_flat, (300, 5000), 'random columns'),
]
