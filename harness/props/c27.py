"""Segment set-up."""
import numpy as np
from hypothesis import strategies as st

import weac
from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C27'
TITLE = 'Segment set-up reproduces the requested geometry for every system'
TECHNIQUE = 'property-based testing: geometric invariants of generated set-ups and acceptance by all consumers'
NOTE = (
    'Random systems, lengths, cracks, masses and touchdown stages: total length, supported and unsupported stretches, '
    'position of the skier and consistency of the lists derived from the request alone; every set-up is solved, '
    'rasterised and evaluated.'
)


def stretches(li, ki):
    """Unsupported intervals of the column."""
    off = np.concatenate([[0.0], np.cumsum(li)])
    out = []
    for i, k in enumerate(ki):
        if not k and li[i] > 0:
            if out and abs(out[-1][1] - off[i]) < 1e-9 * off[-1]:
                out[-1][1] = off[i + 1]
            else:
                out.append([off[i], off[i + 1]])
    return out


def check(c, rec):
    touch = c['st'].get('touch')
    if touch:
        c = md.resolve_touch(c)
    s = c['st']
    system, phi = s['system'], c['phi']
    # the touchdown option has a meaning for PST systems with normal faces only
    m = md.build(c, touch=True) if c.get('flag') and system not in ('pst-', '-pst') else md.build(c)
    arrays = c.get('arrays')
    conv = np.array if arrays else list
    if system == 'skiers':
        kw = {k: conv(s[k]) for k in ('li', 'mi', 'ki', 'k0')}
        g = m.calc_segments(phi=phi, **kw)
        for k, v in kw.items():
            if not np.array_equal(v, conv(s[k])):
                raise Violation(f'input {k} modified')
    else:
        g = m.calc_segments(phi=phi, **{k: s[k] for k in ('L', 'a', 'm', 'cf', 'ratio') if k in s})
    if set(g) != {'nocrack', 'crack', 'both'}:
        raise Violation(f'configurations {sorted(g)}')
    b = g['both']
    for k in ('li', 'mi'):
        if not (np.array_equal(g['nocrack'][k], b[k]) and np.array_equal(g['crack'][k], b[k])):
            raise Violation(f'{k} differs between configurations')
    if not (np.array_equal(g['crack']['ki'], b['ki']) and np.array_equal(g['nocrack']['ki'], b['k0'])):
        raise Violation('supports differ between configurations')
    n = len(b['li'])
    if not len(b['ki']) == len(b['k0']) == n == len(b['mi']) + 1:
        raise Violation(f"{n} lengths, {len(b['ki'])} and {len(b['k0'])} supports, {len(b['mi'])} masses")
    li = np.asarray(b['li'], dtype=float)
    if np.any(li < 0):
        raise Violation(f'negative length {li}')
    off = np.concatenate([[0.0], np.cumsum(li)])
    if system == 'skiers':
        for k in ('li', 'mi', 'ki', 'k0'):
            if not np.array_equal(np.asarray(b[k]), np.asarray(s[k])):
                raise Violation(f'{k}: {b[k]} returned for {s[k]}')
    else:
        L, a = s['L'], s['a']
        open_ = a
        if touch and m.mode == 'C':
            open_ = m.td
            if not 0 < open_ < a:
                raise Violation(f'unsupported length {open_} after touchdown of a crack of length {a}')
        total = L - a + open_
        close(rec, 'length', off[-1], total, L, 1e-12, 'total length')
        want = {'pst-': [L - a, L - a + open_], 'vpst-': [L - a, L], '-pst': [0, open_], '-vpst': [0, a],
                'skier': [(L - a) / 2, (L + a) / 2]}[system]
        got = stretches(li, b['ki'])
        if a == 0:
            if got:
                raise Violation(f'unsupported stretch {got} without crack')
        else:
            if len(got) != 1:
                raise Violation(f'unsupported stretches {got}')
            close(rec, 'crack', got[0], want, L, 1e-12, 'unsupported stretch')
        if not np.all(b['k0']):
            raise Violation(f"intact configuration {b['k0']}")
        loads = [(off[i + 1], v) for i, v in enumerate(b['mi']) if v != 0]
        if system == 'skier' and s['m'] > 0:
            if len(loads) != 1 or loads[0][1] != s['m']:
                raise Violation(f'skier loads {loads} for mass {s["m"]}')
            close(rec, 'skier', loads[0][0], L / 2, L, 1e-12, 'skier position')
        elif loads:
            raise Violation(f'loads {loads} without skier')
        # the crack tips are joints
        for v in want:
            if a > 0 and np.min(np.abs(off - v)) > 1e-9 * L:
                raise Violation(f'no joint at crack tip {v}: {off}')
    # consumers accept every configuration
    C0 = m.assemble_and_solve(phi=phi, **g['nocrack'])
    C1 = m.assemble_and_solve(phi=phi, **g['crack'])
    if C0.shape != (6, n) or C1.shape != (6, n) or not np.isfinite(C1).all():
        raise Violation(f'constants of shape {C0.shape}, {C1.shape}')
    x, z, xb = m.rasterize_solution(C1, phi, **g['crack'])
    close(rec, 'grid', x[-1], off[-1], off[-1], 1e-9, 'end of the grid')
    G, D = m.ginc(C0, C1, phi, **b), m.gdif(C1, phi, **g['crack'])
    if np.shape(G) != (3,) or np.shape(D) != (3,) or not np.isfinite(D).all():
        raise Violation(f'energy release rates {G}, {D}')
    md.labels(rec, c, b)
    rec.label(f'stage {m.mode}' if touch else None, 'no crack' if not stretches(li, b['ki']) else 'crack')
    rec.nontrivial = True


def check_defaults(c, rec):
    """Omitted arguments have their documented values."""
    system = c['system']
    kw = dict(c['kw'])
    touch = c['touch'] and system in ('pst-', '-pst')
    if touch and c['long']:
        kw['a'] = c['long'] * kw.get('L', 1e4)
    documented = {'L': 1e4, 'a': 0, 'm': 0, 'phi': 0, 'cf': 0.5, 'ratio': 1000}
    full = {**documented, **kw}
    seen = []
    for args in (kw, full):
        m = weac.Layered(system=system, layers=c['slab'], touchdown=touch)
        seen.append((m, m.calc_segments(**args)))
    (ma, a), (mb, b) = seen
    for k in a:
        for q in a[k]:
            if not np.array_equal(a[k][q], b[k][q]):
                raise Violation(f'{k}/{q} with omitted arguments: {a[k][q]}, with defaults: {b[k][q]}')
    if touch:
        for q in ('tc', 'ratio', 'mode', 'td'):
            if getattr(ma, q) != getattr(mb, q):
                raise Violation(f'{q} with omitted arguments: {getattr(ma, q)}, with defaults: {getattr(mb, q)}')
        rec.label(f'stage {ma.mode}')
        # Helpers of the touchdown solution
        mc = weac.Layered(system=system, layers=c['slab'], touchdown=touch)
        given = [full[q] for q in ('L', 'a', 'cf', 'phi')]
        mc.calc_touchdown_system(*given, ratio=7)
        mc.calc_touchdown_system(*given)
        for q in ('tc', 'ratio', 'mode', 'td'):
            if getattr(mc, q) != getattr(mb, q):
                raise Violation(f'{q} of calc_touchdown_system with omitted ratio: {getattr(mc, q)}, expected {getattr(mb, q)}')
        L = 0.5 * full['L']
        ma.set_stiffness_ratio()
        mb.set_stiffness_ratio(1000)
        for omit, given in (({}, {'support': 'rested', 'dof': 'rot'}), ({'dof': 'trans'}, {'support': 'rested', 'dof': 'trans'}),
                            ({'support': 'supported'}, {'support': 'supported', 'dof': 'rot'})):
            u, v = ma.substitute_stiffness(L, **omit), mb.substitute_stiffness(L, **given)
            if not u == v:
                raise Violation(f'stiffness of a {L} mm part with {omit}: {u}, with {given}: {v}')
    close(rec, 'default length', np.sum(a['crack']['li']) + (ma.a - ma.td if touch else 0), full['L'], full['L'], 1e-12, 'total length')
    rec.nontrivial = True


def defaults():
    return st.fixed_dictionaries({'system': st.sampled_from(['pst-', '-pst', 'vpst-', '-vpst', 'skier']),
                                  'touch': st.booleans(), 'long': st.sampled_from([0, 0.2, 0.4, 0.6, 0.85]), 'slab': st.sampled_from(['A', 'C', [[240, 200]], [[300, 500], [200, 300]]]),
                                  'kw': st.fixed_dictionaries({}, optional={
                                      'L': gen.num(500, 20000), 'a': gen.num(0, 400), 'm': gen.num(0, 200), 'phi': gen.num(-40, 40)})})


SUBS = [
    Sub('geometry', lambda: st.builds(lambda a, b, f: {**a, 'arrays': b, 'flag': f}, gen.config(gen.struct()),
                                   st.booleans(), st.booleans()), check,
        (800, 12000), 'random systems'),
    Sub('touchdown', lambda: gen.config(gen.touch_struct()), check, (160, 3000), 'columns with touchdown'),
    Sub('defaults', defaults, check_defaults, (300, 2000), 'omitted arguments'),
]
