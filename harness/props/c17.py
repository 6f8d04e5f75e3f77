"""Substitute springs."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C17'
TITLE = 'Substitute springs equal the stiffness of a free slab on its foundation'
TECHNIQUE = 'property-based testing against an independent free-beam solution'
NOTE = (
    'Random slabs, weak layers, lengths (fractions of to many times the decay length), stiffness ratios, loads, '
    'inclinations and system types: both springs compared with the unit-load response of the independent reference '
    'model; long-length limit; solutions of the model before and after are compared.'
)


def probe(m, phi):
    """Everything a later computation could see."""
    out = [np.ravel(np.asarray(getattr(m, k), dtype=float)) for k in
           ('kn', 'kt', 'A11', 'B11', 'D11', 'kA55', 'K0', 'h', 't', 'zs', 'g', 'p', 'lski', 'slab')]
    s = {'li': np.array([700.0, 300.0, 500.0]), 'mi': np.array([0, 50]), 'ki': np.array([True, False, True])}
    C = m.assemble_and_solve(phi=phi, **s)
    z = np.hstack([m.z(np.array([0, 0.5, 1]) * l, C[:, [i]], l, phi, bed=k)
                   for i, (l, k) in enumerate(zip(s['li'], s['ki']))])
    return out, z


def check(c, rec):
    sec = md.section(c)
    m = md.build(c, system=c['system'], touch=c['touch'])
    sysname = m.system
    if c['system'] == 'skiers':
        m.calc_segments(li=[500.0, 500.0], mi=[0], ki=[True, True], k0=[True, True], phi=c['phi'])
    else:
        m.calc_segments(L=5000, a=0, phi=c['phi'], cf=0.95)
    m.set_stiffness_ratio(c['ratio'])
    before = probe(m, c['phi'])
    ell = 1 / md.decay(sec)
    for sup, fac in (('supported', 1.0), ('rested', float(c['ratio']))):
        ells = 1 / np.min(np.abs(np.linalg.eigvals(sec.ode(0, True, fac)[0]).real))
        L = c['rel'] * ells
        for dof in ('rot', 'trans'):
            k = m.substitute_stiffness(L, sup, dof)
            want = ref.unit_stiffness(sec, L, fac, dof)
            close(rec, f'{sup} {dof}', k, want, want, 1e-7, f'{sup} {dof} stiffness of length {L:.6g} ({c["rel"]} decay lengths)')
    L = c['rel'] * ell
    kw = m.substitute_stiffness(L, support='rested', dof='rot')
    close(rec, 'defaults', m.substitute_stiffness(L), kw, kw, 1e-12, 'default support and dof')
    for dof in ('rot', 'trans'):
        a, b = (m.substitute_stiffness(f * ell, 'supported', dof) for f in (18, 45))
        close(rec, 'long slab', a, b, b, 1e-6, f'{dof} stiffness of long slabs')
    if m.system != sysname:
        raise Violation(f'system type {m.system!r} after the computation, was {sysname!r}')
    after = probe(m, c['phi'])
    for a, b in zip(before[0], after[0]):
        if np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-12, atol=0):
            raise Violation(f'model properties changed from {a} to {b}')
    sc = np.max(np.abs(before[1]), axis=1)[:, None]
    close(rec, 'model afterwards', after[1], before[1], sc + 1e-30, 1e-8, 'solution after computing substitute springs')
    rec.label('system ' + c['system'], 'short' if c['rel'] < 1 else 'long' if c['rel'] > 8 else 'medium',
              'surface load' if c['p'] else None, 'one layer' if len(sec.th) == 1 else 'layered')
    rec.nontrivial = True


def cases():
    return st.builds(lambda a, **k: {**a, **k}, gen.base(), system=st.sampled_from(gen.SYSTEMS),
                     touch=st.sampled_from([False, False, True]), rel=gen.lognum(0.05, 200),
                     ratio=st.one_of(st.just(1000), gen.num(1, 5000), gen.lognum(0.02, 50)))


SUBS = [Sub('springs', cases, check, (640, 12000), 'random slabs and lengths')]
