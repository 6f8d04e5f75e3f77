"""Mirror symmetry."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C07'
TITLE = 'Mirrored structures give mirrored results'
TECHNIQUE = 'metamorphic property-based testing: mirrored pairs of structures'
NOTE = ('Random structures of every system type and their mirror images: states at mirrored points, '
        'energy release rates, touchdown stage and length.')
MIRROR = {'pst-': '-pst', '-pst': 'pst-', 'vpst-': '-vpst', '-vpst': 'vpst-',
          'skier': 'skier', 'skiers': 'skiers'}
SIGN = np.array([-1, 1, -1, 1, 1, -1])


def mirrored(c):
    d = dict(c)
    d['phi'] = -c['phi']
    s = dict(c['st'])
    s['system'] = MIRROR[s['system']]
    for k in ('li', 'mi', 'ki', 'k0'):
        if k in s:
            s[k] = s[k][::-1]
    d['st'] = s
    return d


def both(c):
    m = md.build(c)
    m.tol = 1e-12
    seg = md.segments(m, c, None)
    s = seg['crack']
    C = m.assemble_and_solve(phi=c['phi'], **s)
    return m, seg, s, C


def check(c, rec):
    if c['st'].get('touch'):
        c = md.resolve_touch(c)
    d = mirrored(c)
    m1, g1, s1, C1 = both(c)
    m2, g2, s2, C2 = both(d)
    sec = md.section(c)
    n = len(s1['li'])
    for k in ('li', 'mi', 'ki'):
        a, b = np.asarray(s1[k], dtype=float), np.asarray(s2[k], dtype=float)[::-1]
        close(rec, 'segments', a, b, 1 + np.abs(a), 1e-9, f'mirrored {k}')
    if c['st'].get('touch'):
        if m1.mode != m2.mode:
            raise Violation(f'stage {m1.mode} becomes {m2.mode} in the mirrored column')
        close(rec, 'td', m2.td, m1.td, m1.td + 1e-6, 1e-7, 'touchdown length')
        close(rec, 'tc', m2.tc, m1.tc, m1.tc, 1e-9, 'collapse height')
        rec.label('stage ' + m1.mode)
    F = md.forces(c, s1, sec)
    grid = np.linspace(0, 1, 7)
    A = [md.seg_state(m1, s1, C1, i, grid * s1['li'][i], c['phi']) for i in range(n)]
    S = md.scales(sec, c['phi'], F, np.hstack(A))
    for i in range(n):
        j = n - 1 - i
        l = s2['li'][j]
        B = md.seg_state(m2, s2, C2, j, (1 - grid) * l, d['phi'])
        close(rec, 'state', B * SIGN[:, None], A[i], S[:, None], 1e-6, f'mirrored state in segment {i}')
        if s1['ki'][i]:
            Za = m1.z(grid * s1['li'][i], C1[:, [i]], s1['li'][i], c['phi'])
            Zb = m2.z((1 - grid) * l, C2[:, [j]], l, d['phi'])
            sg = max(np.abs(m1.sig(Za)).max(), sec.kn * S[1])
            st_ = max(np.abs(m1.tau(Za)).max(), sec.kt * S[0])
            close(rec, 'sigma', m2.sig(Zb), m1.sig(Za), sg, 1e-6, 'mirrored normal stress')
            close(rec, 'tau', m2.tau(Zb), -m1.tau(Za), st_, 1e-6, 'mirrored shear stress')
    ga, gb = m1.gdif(C1, c['phi'], **s1), m2.gdif(C2, d['phi'], **s2)
    G = (sec.kn * S[1]**2 + sec.kt * S[0]**2) / 2
    close(rec, 'gdif', gb, ga, max(ga[0], G), 1e-6, 'energy release rate of the mirrored system')
    inc = g1['both']
    newcrack = sum(l for l, k, k0 in zip(inc['li'], inc['ki'], inc['k0']) if k0 and not k)
    if newcrack > 0 and not c['st'].get('touch'):
        r = []
        for m, g, C, phi in ((m1, g1, C1, c['phi']), (m2, g2, C2, d['phi'])):
            C0 = m.assemble_and_solve(phi=phi, **g['nocrack'])
            r.append(m.ginc(C0, C, phi, **g['both']))
        close(rec, 'ginc', r[1], r[0], max(np.abs(r[0]).max(), G), 1e-5,
              'incremental energy release rate of the mirrored system')
        rec.label('ginc')
    md.labels(rec, c, s1)
    rec.nontrivial = n > 1 and (c['phi'] != 0 or any(np.asarray(s1['li']) != np.asarray(s1['li'])[::-1]))


SUBS = [
    Sub('mirror', lambda: gen.config(gen.any_struct()), check, (1200, 20000),
        'random configuration and structure; non-trivial if asymmetric'),
    Sub('touchdown', lambda: gen.config(gen.touch_struct(), steep=80), check, (320, 5000),
        'the same for PSTs with touchdown'),
]
