"""Far fields."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C29'
TITLE = 'Far from loads and cracks the slab is in its uniform state'
TECHNIQUE = 'property-based testing: closed-form far field and metamorphic relations between models of different extent'
NOTE = (
    'Random slabs, loads and crack patterns with end segments of many decay lengths: state between structure and '
    'ends compared with the closed-form uniform state; pairs of models with longer ends or other end conditions '
    'compared around the structure; slabs without skiers and cracks compared with the uniform state everywhere.'
)
FAR = 20.0      # decay lengths: exp(-20) = 2e-9


def uniform(sec, phi):
    """Closed form: no axial force and moment, weak layer carries the loads."""
    qn, qt = sec.q(phi)
    pn, pt = sec.ps(phi)
    V = sec.zs * qt - sec.h / 2 * pt - (sec.h + sec.t) / 2 * (qt + pt)
    psi = V / sec.kA55
    return np.array([(qt + pt) / sec.kt - sec.h / 2 * psi, (qn + pn) / sec.kn, psi, 0.0, 0.0, V])


def model(c, ends, system='skiers'):
    """Structure of the case between end segments of the given lengths."""
    s = c['core']
    li = [ends[0]] + list(s['li']) + [ends[1]]
    k = [True] + list(s['ki']) + [True]
    d = {**c, 'st': {'system': system, 'li': li, 'mi': list(s['mi']), 'ki': k, 'k0': [True] * len(li), 'touch': False}}
    return md.solve(d) + (d,)


def check_far(c, rec):
    sec, phi = md.section(c), c['phi']
    ell = 1 / md.decay(sec)
    e = [round((2 * FAR + f) * ell, 1) for f in c['extra']]
    m, s, C, d = model(c, e, c['system'])
    n = len(s['li'])
    u = uniform(sec, phi)
    all_ = np.hstack([md.seg_state(m, s, C, i, np.linspace(0, l, 15), phi) for i, l in enumerate(s['li'])])
    S = md.scales(sec, phi, md.forces(d, s, sec), all_)
    qn, qt = sec.q(phi)
    pn, pt = sec.ps(phi)
    # first, middle and last points that are far from everything
    free = c['system'] != 'skiers'
    for i in (0, n - 1):
        l = e[0] if i == 0 else e[1]
        lo, hi = (FAR * ell if free else 0, l - FAR * ell) if i == 0 else (FAR * ell, l - (FAR * ell if free else 0))
        x = np.linspace(lo, hi, 5)
        z = m.z(x, C[:, [i]], l, phi, bed=True)
        got = md.as_state(m, z)
        close(rec, 'uniform state', got, np.tile(u[:, None], 5), S[:, None], 1e-6, 'state far from the structure')
        stress = max(abs(qn + pn), abs(qt + pt)) + np.max(np.abs([sec.sig(all_), sec.tau(all_)])) * 1e-2
        close(rec, 'stress', [m.sig(z), m.tau(z)], np.tile([[-(qn + pn)], [qt + pt]], 5), stress, 1e-5,
              'weak-layer stress far from the structure')
    md.labels(rec, d, s)
    rec.nontrivial = True


def check_length(c, rec):
    """End segments and end conditions do not matter far away."""
    sec, phi = md.section(c), c['phi']
    ell = 1 / md.decay(sec)
    e1 = [round((FAR + f) * ell, 1) for f in c['extra']]
    e2 = [round((FAR + f) * ell, 1) for f in c['other']]
    m1, s1, C1, d1 = model(c, e1, c['system'])
    m2, s2, C2, d2 = model(c, e2, c['system2'])
    n = len(s1['li'])
    core = [np.hstack([md.seg_state(m, s, C, i, np.linspace(0, s['li'][i], 9), phi) for i in range(1, n - 1)])
            for m, s, C in ((m1, s1, C1), (m2, s2, C2))] if n > 2 else []
    near = np.linspace(0, 3 * ell, 7)
    a = [md.seg_state(m1, s1, C1, n - 1, near, phi), md.seg_state(m1, s1, C1, 0, e1[0] - near, phi)]
    b = [md.seg_state(m2, s2, C2, n - 1, near, phi), md.seg_state(m2, s2, C2, 0, e2[0] - near, phi)]
    if core:
        a, b = a + [core[0]], b + [core[1]]
    a, b = np.hstack(a), np.hstack(b)
    far = np.hstack([md.seg_state(m, s, C, i, np.linspace(0, s['li'][i], 15), phi)
                     for m, s, C in ((m1, s1, C1), (m2, s2, C2)) for i in (0, n - 1)])
    S = np.maximum(md.scales(sec, phi, md.forces(d1, s1, sec), a), np.max(np.abs(far), axis=1))
    close(rec, 'state', a, b, S[:, None], 1e-6, 'state near the structure in models of different extent')
    g1, g2 = (m.gdif(C, phi, **s) for m, s, C in ((m1, s1, C1), (m2, s2, C2)))
    G = (sec.kn * S[1]**2 + sec.kt * S[0]**2) / 2
    close(rec, 'gdif', g1, g2, np.abs(g1) + G, 1e-5, 'energy release rate in models of different extent')
    md.labels(rec, d1, s1)
    rec.label('same ends' if c['system'] == c['system2'] else f"{c['system']} and {c['system2']}")
    rec.nontrivial = bool(s1['mi'] is not None and (np.any(s1['mi'] > 0) or not np.all(s1['ki'])))


def check_plain(c, rec):
    """Infinite slab without skiers and cracks, however it is divided."""
    m, s, C = md.solve(c)
    sec, phi = md.section(c), c['phi']
    u = uniform(sec, phi)
    S = md.scales(sec, phi)
    for i, l in enumerate(s['li']):
        got = md.seg_state(m, s, C, i, np.linspace(0, l, 7), phi)
        close(rec, 'uniform state', got, np.tile(u[:, None], 7), S[:, None], 1e-8, 'state of the infinite slab')
    x, z, _ = m.rasterize_solution(C, phi, num=20, **s)
    qn, qt = sec.q(phi)
    pn, pt = sec.ps(phi)
    close(rec, 'stress', [m.sig(z), m.tau(z)], np.tile([[-(qn + pn)], [qt + pt]], len(x)), max(abs(qn + pn), abs(qt + pt)),
          1e-8, 'weak-layer stress of the infinite slab')
    if np.all(s['ki']):
        close(rec, 'gdif', m.gdif(C, phi, **s), np.zeros(3), 1, 0, 'energy release rate without crack')
    md.labels(rec, c, s)
    rec.nontrivial = True


@st.composite
def cores(draw):
    n = draw(st.integers(0, 5))
    return {'li': draw(st.lists(gen.num(1, 2500), min_size=n, max_size=n)),
            'ki': draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            'mi': draw(st.lists(gen.mass(), min_size=n + 1, max_size=n + 1))}


def far():
    free = st.sampled_from(['skiers', 'skiers', 'pst-', '-pst', 'vpst-', '-vpst'])
    two = st.lists(gen.num(0, 15, 1), min_size=2, max_size=2)
    return st.builds(lambda a, b: {**a, **b}, gen.base(), st.fixed_dictionaries(
        {'core': cores(), 'extra': two, 'other': two, 'system': free, 'system2': free}))


@st.composite
def plain(draw):
    c = draw(gen.base())
    if draw(st.booleans()):
        c['st'] = draw(gen.skiers_struct())
        n = len(c['st']['li'])
        c['st'].update(ki=[True] * n, k0=[True] * n, mi=[0] * (n - 1))
    else:
        c['st'] = {'system': 'skier', 'L': draw(gen.length()), 'a': 0, 'm': 0, 'touch': False}
    return c


SUBS = [
    Sub('far field', far, check_far, (600, 10000), 'random structures with ends of at least forty decay lengths'),
    Sub('extent', far, check_length, (600, 10000), 'pairs of models; non-trivial with a skier or crack'),
    Sub('plain', plain, check_plain, (800, 10000), 'slabs without skiers and cracks'),
]
