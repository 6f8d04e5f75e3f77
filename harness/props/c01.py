"""Section stiffness, geometry and set-up of the model."""
import numpy as np
from hypothesis import strategies as st

import weac
from harness import gen, ref
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C01'
TITLE = 'Section stiffness, thickness and centre of gravity follow from the layers'
TECHNIQUE = 'property-based testing against independent laminate integrals; random setter sequences'
NOTE = ('Random profiles (lists, arrays, named), materials, systems: section stiffness, centroid, layer '
        'table and weak-layer stiffness compared with integrals computed from the layers alone; '
        'sequences of setters compared with a model built with the final values. Up to 12 layers and 6 '
        'setters.')
TOL = 1e-9


def compare(m, slab, weak, rec, what='', p=None):
    r = np.array(md.rows(slab), dtype=float)
    sec = ref.Section(r[:, 0], r[:, 1], r[:, 2], r[:, 3], weak['t'], weak['E'], weak['nu'])
    G = r[:, 2] / (2 * (1 + r[:, 3]))
    table = np.column_stack([r[:, 0], r[:, 1], r[:, 2], G, r[:, 3]])
    close(rec, 'slab', m.slab, table, np.maximum(np.abs(table), 1e-12), TOL, what + 'layer table')
    h = sec.h
    for name, want, scale in (
            ('h', h, h), ('zs', sec.zs, h), ('A11', sec.A, sec.A), ('B11', sec.B, sec.A * h),
            ('D11', sec.D, sec.D), ('kA55', sec.kA55, sec.kA55),
            ('K0', sec.B**2 - sec.A * sec.D, sec.A * sec.D),
            ('kn', sec.kn, sec.kn), ('kt', sec.kt, sec.kt), ('t', weak['t'], weak['t']),
            ('k', 5 / 6, 1)):
        close(rec, name, getattr(m, name), want, scale, TOL, what + name)
    close(rec, 'ply', m.get_ply_coordinates(),
          np.concatenate([[-h / 2], -h / 2 + np.cumsum(r[:, 1])]), h, TOL, what + 'ply coordinates')
    # the fundamental system belongs to this section: eigenvalues of the ODE
    F, _ = sec.ode(0.0, True)
    if not (hasattr(m, 'ewR') and hasattr(m, 'ewC')):
        return sec      # C03 decides the solutions themselves
    want = np.linalg.eigvals(F)
    got = np.concatenate([m.ewR, m.ewC, np.conj(m.ewC)])
    if got.size != 6:
        raise Violation(f'{what}{got.size} eigenvalues instead of 6')
    s = np.max(np.abs(want))
    far = max(np.min(np.abs(got[:, None] - want[None, :]), axis=0).max(),
              np.min(np.abs(got[:, None] - want[None, :]), axis=1).max()) / s
    rec.metric('eigenvalues', far)
    if not far < 1e-5:      # multiple roots are only accurate to sqrt(eps)
        raise Violation(f'{what}eigenvalues {got} differ from {want}')
    return sec


def check_section(c, rec):
    m = md.build(c, system=c['system'], touch=False)
    sec = compare(m, c['slab'], c['weak'], rec)
    lay = c['slab']['layers']
    rec.label('database' if isinstance(lay, str) else f"{min(len(lay), 4)} layers",
              'nu != 0.25' if c['slab'].get('nu', .25) != .25 else None)
    rec.nontrivial = abs(sec.B) > 1e-6 * sec.A * sec.h


def check_sequence(c, rec):
    """Setters in any order; the last one updates the fundamental system."""
    slab = c['slab']
    m = weac.Layered(system=c['system'], layers=md.layers_arg(slab) if slab else None)
    cur = {'layers': slab['layers'] if slab else [[240, 200]]}
    weak = {'t': 30, 'E': 0.25, 'nu': 0.25}
    compare(m, cur, weak, rec, 'after construction: ')
    ops = c['ops']
    dirty = False
    for i, (kind, arg, update) in enumerate(ops):
        update = update or i == len(ops) - 1
        if kind == 'slab':
            kw = {k: arg[k] for k in ('C0', 'C1', 'nu') if k in arg}
            m.set_beam_properties(md.layers_arg(arg), update=update, **kw)
            cur = arg
        elif kind == 'weak':
            m.set_foundation_properties(update=update, **arg)
            weak = {'t': 30, 'E': 0.25, 'nu': 0.25, **arg}
        if update:
            sec = compare(m, cur, weak, rec, f'after step {i} ({kind}): ')
            dirty = False
        else:
            dirty = True
    # and the model computes with it
    s = {'li': np.array([3000., 400.]), 'mi': np.array([0]), 'ki': np.array([True, False])}
    if c['system'] not in gen.PST:
        s = {'li': np.array([6000., 400., 6000.]), 'mi': np.array([60, 0]),
             'ki': np.array([True, False, True])}
        m.calc_segments(**s, k0=s['ki'])
    else:
        m.calc_segments(L=3400, a=400)
    C = m.assemble_and_solve(phi=20, **s)
    c2 = {'slab': cur, 'weak': weak, 'phi': 20, 'st': {'system': c['system']}}
    R = md.reference(c2, s, m, sec)
    S = md.scales(sec, 20, md.forces(c2, s, sec), R.s)
    for i in range(len(s['li'])):
        x, want = R.seg_nodes(i)
        close(rec, 'state', md.seg_state(m, s, C, i, x[[0, -1]], 20), want[:, [0, -1]], S[:, None],
              1e-6, f'state after setters in segment {i}')
    rec.label(f'{len(ops)} setters', *(f'{k} update={u}' for k, _, u in ops))
    rec.nontrivial = len(ops) > 1


def partial_weak():
    return st.fixed_dictionaries({}, optional={
        't': gen.num(1, 60), 'E': gen.lognum(0.03, 6), 'nu': gen.num(0, 0.45, 2)})


def partial_slab():
    return st.builds(lambda s, keep: {k: v for k, v in s.items() if k in ('layers', 'form') or k in keep},
                     gen.slab(), st.sets(st.sampled_from(['C0', 'C1', 'nu'])))


def sequence():
    op = st.one_of(st.tuples(st.just('slab'), partial_slab(), st.booleans()),
                   st.tuples(st.just('weak'), partial_weak(), st.booleans())).map(list)
    return st.fixed_dictionaries({
        'system': st.sampled_from(gen.SYSTEMS),
        'slab': st.one_of(st.none(), gen.slab(custom=False)),
        'ops': st.lists(op, min_size=1, max_size=5)})


SUBS = [
    Sub('section', lambda: st.fixed_dictionaries({
        'slab': gen.slab(max_layers=12), 'weak': gen.weak(), 'system': st.sampled_from(gen.SYSTEMS)}),
        check_section, (6000, 100000),
        'random profile and material parameters; non-trivial when bending and extension couple'),
    Sub('setters', sequence, check_sequence, (1600, 24000),
        'sequences of setter calls with and without update, last one with; non-trivial with two or more'),
]
