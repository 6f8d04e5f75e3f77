"""Through-depth mesh."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C26'
TITLE = 'The through-depth mesh covers every layer with its own properties'
TECHNIQUE = 'property-based testing: invariants of generated meshes'
NOTE = (
    'Random layerings and mesh sizes, finer and coarser than layers: faces, order, spacing, number of points and '
    'material data of every grid point derived from the layers alone; row counts of the stress fields.'
)


def check(c, rec):
    c = {**c, 'weak': {'t': 30, 'E': 0.25, 'nu': 0.25}}
    m = md.build(c, system='pst-')
    sec = md.section(c)
    kw = {} if c['dz'] is None else {'dz': c['dz']}
    dz = 2 if c['dz'] is None else c['dz']
    g = np.asarray(m.get_zmesh(**kw))
    if g.ndim != 2 or g.shape[1] != 4 or not np.isfinite(g).all():
        raise Violation(f'mesh of shape {g.shape}')
    z, h = g[:, 0], sec.h
    tol = 1e-9 * h
    if np.any(np.diff(z) < -tol):
        raise Violation('mesh is not ordered from top to bottom')
    k = 0
    for i, (a, b) in enumerate(zip(sec.top, sec.bot)):
        # rows of this layer: from its top face to the first point at its bottom face
        n = k + 1
        while n < len(z) and z[n] < b - tol:
            n += 1
        if n >= len(z):
            raise Violation(f'mesh ends above the lower face of layer {i}')
        r = g[k:n + 1]
        close(rec, 'faces', [r[0, 0], r[-1, 0]], [a, b], h, 1e-9, f'faces of layer {i}')
        d = np.diff(r[:, 0])
        if np.max(d) > dz * (1 + 1e-9):
            raise Violation(f'points {np.max(d)} apart in layer {i}, mesh size {dz}')
        if len(d) > (b - a) / dz * (1 + 1e-9) + 1 + 1e-6:
            raise Violation(f'{len(d)} elements of size {dz} in layer {i} of thickness {b - a}')
        close(rec, 'spacing', d, np.full(len(d), (b - a) / len(d)), h, 1e-9, f'spacing in layer {i}')
        want = np.tile([sec.E[i], sec.nu[i], sec.rho[i]], (len(r), 1))
        close(rec, 'material', r[:, 1:], want, np.maximum(want, 1e-12), 1e-9, f'material of layer {i}')
        k = n + 1
    if k != len(z):
        raise Violation(f'{len(z) - k} grid points beyond the layers')
    if c['fields']:
        Z = np.random.default_rng(1).normal(size=(6, 3))
        for f in (m.Sxx, m.Txz, m.Szz):
            if np.shape(f(Z, c['phi'], **kw)) != (len(z), 3):
                raise Violation(f'{f.__name__} has shape {np.shape(f(Z, c["phi"], **kw))} on {len(z)} grid points')
        if np.shape(m.principal_stress_slab(Z, c['phi'], **kw)) != (len(z), 3):
            raise Violation('principal stress does not match the grid')
    close(rec, 'ply', m.get_ply_coordinates(), np.concatenate([[-h / 2], sec.bot]), h, 1e-9, 'ply coordinates')
    rec.label('coarser than a layer' if dz > sec.th.min() else 'finer than layers', 'default size' if c['dz'] is None else None,
              'one layer' if len(sec.th) == 1 else 'layered')
    rec.nontrivial = len(sec.th) > 1


def cases():
    return st.fixed_dictionaries({
        'slab': gen.slab(max_layers=10), 'phi': gen.phi(),
        'dz': st.one_of(st.none(), gen.num(1, 60), gen.num(0.5, 20, 1), gen.num(50, 3000)), 'fields': st.sampled_from([True, False])})


SUBS = [Sub('mesh', cases, check, (2400, 30000), 'non-trivial with several layers')]
