"""Loads are resolved vertically."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C02'
TITLE = 'Weight, surface and skier loads are resolved vertically for every slope angle'
TECHNIQUE = 'property-based testing against vector resolution of vertical loads'
NOTE = ('Random slabs, angles within 89 degrees of flat, surface loads, skier masses (scalars, lists, '
        'arrays), g and lski: components against the resolved load, magnitude at any angle, additivity '
        'in the mass, element-wise sequences; again after changing g, lski, surface load or slab.')


def split(F, phi):
    r = np.deg2rad(phi)
    return F * np.cos(r), -F * np.sin(r)


def check(c, rec):
    m = md.build(c, system=c['system'], touch=False)
    loads(m, c, c['p'], rec)
    if 'then' in c:
        # the same model with other settings
        d = {**c, **c['then']}
        if 'slab' in c['then']:
            s = d['slab']
            m.set_beam_properties(md.layers_arg(s), C0=s['C0'], C1=s['C1'], nu=s['nu'], update=c['wrap'])
        if 'g' in c['then']:
            m.g = d['g']
        if 'lski' in c['then']:
            m.lski = d['lski']
        if 'p' in c['then']:
            m.set_surface_load(d['p'])
        loads(m, d, d['p'], rec)
    rec.label('phi=0' if c['phi'] == 0 else 'phi<0' if c['phi'] < 0 else 'phi>0',
              'surface load' if c['p'] else None, 'skiers' if len(c['masses']) > 1 else None,
              'g changed' if 'g' in c else None, *(f'{k} changed later' for k in c.get('then', ())))
    rec.nontrivial = c['phi'] != 0


def loads(m, c, p, rec):
    r = np.array(md.rows(c['slab']))
    g = c.get('g', 9810.0)
    q = float(np.sum(r[:, 0] * r[:, 1])) * 1e-12 * g
    for phi in (c['phi'], -c['phi'], c['phi2']):
        for name, F, got in (('weight', q, m.get_weight_load(phi)),
                             ('surface', p, m.get_surface_load(phi))):
            n, t = split(F, phi)
            close(rec, name, got[0], n, max(F, 1e-300), 1e-10, f'normal {name} load at {phi} deg')
            close(rec, name, got[1], t, max(F, 1e-300), 1e-10, f'tangential {name} load at {phi} deg')
            close(rec, 'resultant', np.hypot(*got), F, max(F, 1e-300), 1e-10,
                  f'magnitude of the {name} load at {phi} deg')
        fac = 1e-3 * g / c.get('lski', 1000.0)
        for ms in [[v] for v in c['masses']] + [c['masses']]:
            arg = ms[0] if len(ms) == 1 and not c['wrap'] else (np.array(ms) if c['array'] else list(ms))
            n, t = split(fac * np.array(ms, dtype=float), phi)
            got = m.get_skier_load(arg, phi)
            s = fac * max(max(ms), 1e-9)
            close(rec, 'skier', np.atleast_1d(got[0]), n, s, 1e-10, f'normal skier load of {arg} kg')
            close(rec, 'skier', np.atleast_1d(got[1]), t, s, 1e-10, f'tangential skier load of {arg} kg')
            if np.ndim(got[0]) != np.ndim(arg):
                raise Violation('skier load has another shape than the masses')
    # load vector and total loads used by the model
    m.set_phi(c['phi'])
    n, t = split(q + p, c['phi'])
    s = max(q + p, 1e-300)
    close(rec, 'qn', m.calc_qn(), n, s, 1e-10, 'total normal load')
    close(rec, 'qt', m.calc_qt(), t, s, 1e-10, 'total tangential load')


def cases():
    return st.fixed_dictionaries({
        'slab': gen.slab(), 'weak': st.just({'t': 30, 'E': 0.25, 'nu': 0.25}),
        'system': st.sampled_from(gen.SYSTEMS), 'phi': gen.phi(90), 'phi2': gen.num(-90, 90, 2),
        'p': gen.surface(), 'masses': st.lists(gen.mass(), min_size=1, max_size=4),
        'wrap': st.booleans(), 'array': st.booleans(),
    }, optional={'g': gen.num(1000, 20000), 'lski': gen.num(100, 3000), 'then': st.fixed_dictionaries({}, optional={
        'g': gen.num(1000, 20000), 'lski': gen.num(100, 3000), 'p': gen.surface(), 'slab': gen.slab()})})


SUBS = [Sub('loads', cases, check, (4000, 80000),
            'random slab, angles, surface load and mass sequences; non-trivial on a slope')]
