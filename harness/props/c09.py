"""Equivalent descriptions of the same system."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C09'
TITLE = 'Subdividing segments or layers does not change the result'
TECHNIQUE = 'metamorphic property-based testing: equivalent descriptions of one system'
NOTE = ('Random structures, divided at random points (also at ends, joints, under loads, zero-length '
        'pieces) and with random sublayers: states, rasterised data, energy release rates and touchdown '
        'quantities are equal.')


def solved(c, ginc=True):
    m = md.build(c)
    m.tol = 1e-12
    g = md.segments(m, c, None)
    s = g['crack']
    C = m.assemble_and_solve(phi=c['phi'], **s)
    gi = None
    b = g['both']
    if ginc and sum(l for l, k, k0 in zip(b['li'], b['ki'], b['k0']) if k0 and not k) > 0:
        C0 = m.assemble_and_solve(phi=c['phi'], **g['nocrack'])
        gi = m.ginc(C0, C, c['phi'], **b)
    return m, s, C, m.gdif(C, c['phi'], **s), gi


def state_at(m, s, C, phi, xs, side):
    """States at global positions; side picks the segment at joints."""
    li = np.asarray(s['li'], dtype=float)
    off = np.concatenate([[0], np.cumsum(li)])
    out = []
    tol = 1e-9 * off[-1]
    for x in xs:
        ok = [i for i in range(len(li)) if off[i] - tol <= x <= off[i + 1] + tol and li[i] > 0]
        i = ok[0] if side < 0 else ok[-1]
        out.append(md.seg_state(m, s, C, i, float(np.clip(x - off[i], 0, li[i])), phi)[:, 0])
    return np.array(out).T


def compare(c, d, rec, what):
    m1, s1, C1, g1, i1 = solved(c)
    m2, s2, C2, g2, i2 = solved(d)
    sec = md.section(c)
    L1, L2 = float(np.sum(s1['li'])), float(np.sum(s2['li']))
    close(rec, 'length', L2, L1, L1, 1e-9, f'{what}: total length')
    j1 = np.cumsum(s1['li'])[:-1]
    j2 = np.cumsum(s2['li'])[:-1]
    xs = np.concatenate([np.linspace(0, L1, 9), j1, j2])
    for side in (-1, 1):
        a = state_at(m1, s1, C1, c['phi'], xs, side)
        b = state_at(m2, s2, C2, c['phi'], xs, side)
        S = md.scales(sec, c['phi'], md.forces(c, s1, sec), a)
        close(rec, 'state', b, a, S[:, None], 1e-7, f'{what}: state (u, w, psi, N, M, V)')
    G = (sec.kn * S[1]**2 + sec.kt * S[0]**2) / 2
    close(rec, 'gdif', g2, g1, max(g1[0], G), 1e-7, f'{what}: gdif')
    if (i1 is None) != (i2 is None):
        raise Violation(f'{what}: new crack lost')
    if i1 is not None:
        close(rec, 'ginc', i2, i1, max(np.abs(i1).max(), G), 1e-5, f'{what}: ginc')
    # rasterised output describes the same field
    return m1, m2, s1, s2


def as_list(c):
    """The same structure as an explicit list of segments."""
    s = c['st']
    if 'li' in s:
        return dict(s)
    L, a = float(s['L']), float(s['a'])
    y = s['system']
    if y == 'skier':
        return {'system': 'skiers', 'li': [(L - a) / 2, a / 2, a / 2, (L - a) / 2],
                'mi': [0, s.get('m', 0), 0], 'ki': [True, False, False, True], 'k0': [True] * 4,
                'touch': False}
    li, ki = ([L - a, a], [True, False]) if y.endswith('-') else ([a, L - a], [False, True])
    return {'system': y, 'li': li, 'mi': [0], 'ki': ki, 'k0': [True, True], 'touch': False}


def check_segments(c, rec):
    lst = as_list(c)
    if c['merge']:        # list form of the documented systems
        compare(c, {**c, 'st': lst}, rec, 'explicit segment list')
    d = {k: list(v) if isinstance(v, list) else v for k, v in lst.items()}
    kinds = set()
    for j, f, zero in c['cuts']:
        i = j % len(d['li'])
        l = d['li'][i]
        if zero:
            part, rest = (0.0, l) if f < 0.5 else (l, 0.0)
        else:
            part = round(l * f, 3) if 0 < round(l * f, 3) < l else l * f
            rest = l - part
        kinds.add('zero-length inserted' if zero or l == 0 else 'split supported' if d['ki'][i] else 'split free')
        d['li'][i:i + 1] = [part, rest]
        for k in ('ki', 'k0'):
            d[k][i:i + 1] = [d[k][i]] * 2
        d['mi'][i:i] = [0]
    compare({**c, 'st': lst}, {**c, 'st': d}, rec, 'subdivided segments')
    md.labels(rec, c)
    rec.label(*kinds)
    rec.nontrivial = any('split' in k for k in kinds)


def check_layers(c, rec):
    touch = c['st'].get('touch')
    if touch:
        c = md.resolve_touch(c)
    d = dict(c)
    lay = [list(r) for r in c['slab']['layers']]
    for j, f in c['splits']:
        i = j % len(lay)
        r, h = lay[i]
        part = round(h * f, 2) if 0 < round(h * f, 2) < h else h * f
        lay[i:i + 1] = [[r, part], [r, h - part]]
    d['slab'] = {**c['slab'], 'layers': lay}
    m1, m2, s1, s2 = compare(c, d, rec, 'subdivided layers')
    sec = md.section(c)
    h = sec.h
    for k, sc in (('A11', sec.A), ('B11', sec.A * h), ('D11', sec.D), ('kA55', sec.kA55), ('h', h),
                  ('zs', h), ('K0', sec.A * sec.D)):
        close(rec, k, getattr(m2, k), getattr(m1, k), sc, 1e-10, f'subdivided layers: {k}')
    if touch:
        for k in ('td', 'tc'):
            close(rec, k, getattr(m2, k), getattr(m1, k), abs(getattr(m1, k)) + 1e-9, 1e-6,
                  f'subdivided layers: {k}')
        if m1.mode != m2.mode:
            raise Violation('subdivided layers: another touchdown stage')
        rec.label('stage ' + m1.mode)
    md.labels(rec, c, s1)
    rec.label(f"{len(c['splits'])} splits")
    rec.nontrivial = True


def seg_cases():
    return st.builds(lambda a, b: {**a, **b}, gen.config(gen.any_struct()), st.fixed_dictionaries({
        'merge': st.booleans(),
        'cuts': st.lists(st.tuples(st.integers(0, 7), gen.num(0.01, 0.99, 2),
                                   st.sampled_from([False, False, True])).map(list),
                         min_size=1, max_size=4)}))


def layer_cases(struct):
    return st.builds(lambda a, b: {**a, 'splits': b}, gen.config(struct, db=False),
                     st.lists(st.tuples(st.integers(0, 7), gen.num(0.05, 0.95, 2)).map(list),
                              min_size=1, max_size=4))


SUBS = [
    Sub('segments', seg_cases, check_segments, (1200, 20000),
        'random structure with random cuts; non-trivial when a segment of positive length is split'),
    Sub('layers', lambda: layer_cases(gen.any_struct()), check_layers, (800, 12000),
        'random layers split at random depths'),
    Sub('layers under touchdown', lambda: layer_cases(gen.touch_struct()), check_layers, (240, 4000),
        'random layers split at random depths, PST with touchdown'),
]
