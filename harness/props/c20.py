"""The inverse-analysis model."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close
from harness.props.c18 import same

import weac

ID = 'C20'
TITLE = 'The inverse-analysis model is the forward model with fitted parameters'
TECHNIQUE = 'differential property-based testing of Inverse against Layered and the reference model'
NOTE = (
    'Random systems, profiles and parameter triples (also defaults and sequences of other types): section properties '
    'against independent integrals, solutions against the independent reference model, and all results against a '
    'Layered model with the same settings.'
)


def check(c, rec):
    st_, phi = c['st'], c['phi']
    par = c['par']
    C0, C1, Ew = par if par is not None else (6.0, 4.6, 0.25)
    lay = md.layers_arg(c['slab']) if c['slab']['layers'] is not None else None
    kw = {'system': st_['system']}
    if lay is not None:
        kw['layers'] = lay
    if par is not None:
        kw['parameters'] = {'tuple': tuple, 'list': list, 'array': np.array}[c['form']](par)
    if c['nosys']:
        st_['system'] = 'pst-'
        kw.pop('system')
    m = weac.Inverse(**kw)
    rows = c['slab']['layers'] if lay is not None else [[240, 200]]
    c['slab'] = {'layers': rows, 'C0': C0, 'C1': C1, 'nu': 0.25, 'form': c['slab']['form']}
    c['weak'] = {'t': 30, 'E': Ew, 'nu': 0.25}
    sec = md.section(c)
    f = weac.Layered(system=st_['system'], layers=md.layers_arg(c['slab']))
    f.set_beam_properties(md.layers_arg(c['slab']), C0=C0, C1=C1, update=False)
    f.set_foundation_properties(E=Ew, update=True)
    for a, want in (('A11', sec.A), ('D11', sec.D), ('kA55', sec.kA55), ('kn', sec.kn), ('kt', sec.kt), ('h', sec.h),
                    ('t', sec.t)):
        close(rec, 'section', getattr(m, a), want, want, 1e-9, a)
    close(rec, 'section', m.B11, sec.B, sec.A * sec.h, 1e-9, 'B11')
    close(rec, 'section', m.zs, sec.zs, sec.h, 1e-9, 'zs')
    for mm in (m, f):
        mm.set_surface_load(c['p'])
    res = []
    for mm in (m, f):
        g = md.segments(mm, c, None)
        C = mm.assemble_and_solve(phi=phi, **g['crack'])
        x, z, xb = mm.rasterize_solution(C=C, phi=phi, num=20, **g['crack'])
        r = {'segments': g, 'x': x, 'z': z, 'xb': xb, 'gdif': mm.gdif(C, phi, **g['crack']),
             'Sxx': mm.Sxx(z, phi, dz=10), 'Txz': mm.Txz(z, phi, dz=10), 'Szz': mm.Szz(z, phi, dz=10),
             'u': mm.get_slab_displacement(x, z, loc='top'), 'tau': mm.get_weaklayer_shearstress(xb, z),
             'mode': mm.mode, 'system': mm.system}
        s = g['both']
        if sum(l for l, a, b in zip(s['li'], s['k0'], s['ki']) if a and not b) > 0:
            C0_ = mm.assemble_and_solve(phi=phi, **g['nocrack'])
            r['ginc'] = mm.ginc(C0_, C, phi, **s)
        if st_['system'] in ('pst-', '-pst') and 'L' in st_:
            r['energy'] = [mm.internal_potential(C, phi, st_['L'], **g['crack'])]
        res.append((g['crack'], C, r))
    same(rec, 'result', res[0][2], res[1][2])
    s, C, _ = res[0]
    S = md.reference(c, s, m, sec)
    sc = md.scales(sec, phi, md.forces(c, s, sec), S.s)[:, None]
    for i, l in enumerate(s['li']):
        a, b = S.ends(i)
        close(rec, 'reference', md.seg_state(m, s, C, i, np.array([0.0, l]), phi), np.column_stack([a, b]), sc, 1e-6,
              f'state at the ends of segment {i} and the reference')
    md.labels(rec, c, s)
    rec.label('default parameters' if par is None else None, 'default slab' if lay is None else None)
    rec.nontrivial = True


def cases():
    lay = st.integers(0, 7).flatmap(lambda k: st.none() if k == 7 else gen.db_name() if k == 6 else gen.layer_list())
    par = st.one_of(st.tuples(gen.num(1, 20, 1), gen.num(2.5, 5.5, 2), gen.lognum(0.03, 6)).map(list), st.none())
    return st.fixed_dictionaries({
        'slab': st.fixed_dictionaries({'layers': lay, 'form': st.sampled_from(['list', 'array'])}),
        'par': par, 'form': st.sampled_from(['tuple', 'list', 'array']), 'phi': gen.phi(85), 'p': gen.surface(),
        'st': st.one_of(gen.auto_struct(), gen.skiers_struct()), 'nosys': st.just(False)})


def default_system():
    return st.builds(lambda a, s: {**a, 'st': s, 'nosys': True}, cases(), gen.auto_struct(systems=('pst-',)))


SUBS = [Sub('forward', cases, check, (800, 14000), 'random systems, profiles and parameters'),
        Sub('defaults', default_system, check, (80, 1000), 'without system type')]
