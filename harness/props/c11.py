"""Differential energy release rates."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C11'
TITLE = 'Differential energy release rates follow from weak-layer stress at crack tips'
TECHNIQUE = 'property-based testing against crack-tip weights and stresses derived from the structure'
NOTE = ('Random structures with zero to several cracks, zero-length segments, loads at tips and '
        'touchdown: values against stresses on the supported side of each tip found from the geometry '
        'alone; units and signs.')
UNITS = {None: 1.0, 'kJ/m^2': 1.0, 'N/mm': 1.0, 'J/m^2': 1e3}


def check(c, rec):
    if c['st'].get('touch'):
        c = md.resolve_touch(c)
    m, s, C = md.solve(c)
    sec = md.section(c)
    phi, li, ki = c['phi'], s['li'], list(s['ki'])
    n = len(li)
    tips = [j for j in range(n - 1) if ki[j] != ki[j + 1]]
    G1 = G2 = 0.0
    states = []
    for k, j in enumerate(tips):
        i, x = (j, li[j]) if ki[j] else (j + 1, 0.0)
        a = md.seg_state(m, s, C, i, x, phi)[:, 0]
        states.append(a)
        edge = (k == 0 and not ki[0]) or (k == len(tips) - 1 and not ki[-1])
        w = 1.0 if len(tips) == 1 or edge else 0.5
        G1 += w * sec.sig(a)**2 / (2 * sec.kn)
        G2 += w * sec.tau(a)**2 / (2 * sec.kt)
    want = np.array([G1 + G2, G1, G2])
    S = md.scales(sec, phi, md.forces(c, s, sec))
    floor = (sec.kn * S[1]**2 + sec.kt * S[0]**2) / 2 * 1e-6
    for unit, f in UNITS.items():
        got = m.gdif(C, phi, **s) if unit is None else m.gdif(C, phi, unit=unit, **s)
        close(rec, 'gdif', got, want * f, (np.abs(want) + floor) * f, 1e-7,
              f'gdif(unit={unit}) with tips at {tips} of {ki}')
        if not np.all(np.asarray(got) >= 0):
            raise Violation('negative energy release rate')
        if not tips and np.any(np.asarray(got) != 0):
            raise Violation('energy release rate without crack tip')
    md.labels(rec, c, s)
    rec.label(f'{min(len(tips), 5)} tips', 'edge crack' if not (ki[0] and ki[-1]) else None)
    rec.nontrivial = len(tips) > 0


def check_single(c, rec):
    m = md.build(c, system='skiers', touch=False)
    sec = md.section(c)
    Z = np.array(c['Z'], dtype=float).T * np.array([1, 1e-3, 1, 1e-3, 1e-3, 1e-6])[:, None]
    a = np.array([Z[0], Z[2], Z[4], 0 * Z[0], 0 * Z[0], sec.kA55 * (Z[3] + Z[4])])
    w1 = (sec.kn * Z[2])**2 / (2 * sec.kn)
    t = sec.kt * (np.abs(Z[0]) + sec.h / 2 * np.abs(Z[4]) + sec.t / 2 * np.abs(Z[3]))
    w2 = sec.tau(a)**2 / (2 * sec.kt)
    # tau is a difference of terms; its rounding error is relative to them
    for unit, f in UNITS.items():
        kw = {} if unit is None else {'unit': unit}
        close(rec, 'Gi', m.Gi(Z, **kw), w1 * f, w1 * f + 1e-30, 1e-10, f'Gi(unit={unit})')
        close(rec, 'Gii', m.Gii(Z, **kw), w2 * f, t**2 / (2 * sec.kt) * f + 1e-30, 1e-9, f'Gii(unit={unit})')
    rec.nontrivial = bool(np.any(w2 > 0))


def multi():
    """Structures with several cracks, also at the ends of free columns."""
    return st.one_of(gen.skiers_struct(max_seg=9, min_seg=3), gen.free_struct(max_seg=8), gen.auto_struct())


def single():
    col = st.lists(gen.num(-100, 100, 2), min_size=6, max_size=6)
    return st.builds(lambda a, z: {**a, 'Z': z}, gen.base(), st.lists(col, min_size=1, max_size=3))


SUBS = [
    Sub('tips', lambda: gen.config(multi()), check, (2400, 40000),
        'random structures with zero to several cracks; non-trivial with a crack tip'),
    Sub('touchdown', lambda: gen.config(gen.touch_struct()), check, (240, 4000), 'PST with touchdown'),
    Sub('single', single, check_single, (1200, 20000), 'random solution vectors'),
]
